From e825a87704c9f64fa4ec42b760187cb405175c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 001/240] fix: apply the phase calibration of each gate to the
 same gate in pulse-pair PhiDP

---
 source/RKPulsePair.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKPulsePair.c b/source/RKPulsePair.c
index 9952ea4..bf5633e 100644
--- a/source/RKPulsePair.c
+++ b/source/RKPulsePair.c
@@ -134,15 +134,16 @@ void RKUpdateRadarProductsInScratchSpace(RKMomentScratch *space, const int gateC
     w = space->pcal;
     ri = space->C[0].i;
     rq = space->C[0].q;
-    s[0] = atan2f(*rq++, *ri++);
-    for (k = 1; k < gateCount; k++) {
+    for (k = 0; k < gateCount; k++) {
         s[k] = atan2f(*rq++, *ri++) + *w++;
         if (s[k] < -M_PI) {
             s[k] += 2.0f * M_PI;
         } else if (s[k] >= M_PI) {
             s[k] -= 2.0f * M_PI;
         }
-        *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        if (k > 0) {
+            *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        }
     }
 }
 
-- 
2.43.0


From 4d2e9a25a7e078ff95b6deae8be5be4ab923c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 002/240] fix: clear the cross-correlation accumulators before
 ATSR processing

---
 source/RKPulsePairATSR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index bd1e0c4..1ea9088 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -284,6 +284,8 @@ int RKPulsePairATSR(RKMomentScratch *space, RKPulse **pulses, const uint16_t pul
         RKZeroOutIQZ(&space->R[p][1], gateCount);
         RKZeroOutIQZ(&space->RX[p][0], gateCount);
         RKZeroOutIQZ(&space->RX[p][1], gateCount);
+        RKZeroOutIQZ(&space->CX[p][0], gateCount);
+        RKZeroOutIQZ(&space->C[p], gateCount);
     }
     // Go through the even pulses for hc and vx
     n = 0;
-- 
2.43.0


From 6ca0421eccc0eb415279653e7005b26ba04e585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 003/240] fix: never use more lags than pulses allow in
 multi-lag processing

---
 source/RKMultiLag.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/RKMultiLag.c b/source/RKMultiLag.c
index 78be144..497b675 100644
--- a/source/RKMultiLag.c
+++ b/source/RKMultiLag.c
@@ -23,13 +23,10 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
     // Get the start pulse to know the capacity
     RKPulse *pulse = pulses[0];
     const uint32_t gateCount = pulse->header.downSampledGateCount;
-	const int lagCount = space->userLagChoice == 0 ? MIN(pulseCount, RKMaximumLagCount) : MIN(space->userLagChoice + 1, RKMaximumLagCount);
+	const int lagCount = MIN(pulseCount, space->userLagChoice == 0 ? RKMaximumLagCount : MIN(space->userLagChoice + 1, RKMaximumLagCount));
+	const int lagChoice = MIN(space->userLagChoice, lagCount - 1);
 	const RKFloat tiny = 1.0e-6;
 
-	if (lagCount > pulseCount) {
-		RKLog("WARNING. Memory leak in RKMultiLag.\n");
-	}
-
     //
     //  ACF
     //
@@ -134,7 +131,7 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
 
     // For now, all cells use the same lag choice
     for (k = 0; k < gateCount; k++) {
-        space->mask[k] = space->userLagChoice;
+        space->mask[k] = lagChoice;
     }
 
     // Mark the calculated moments
-- 
2.43.0


From 0627697f46a34ab9b6e6b2760fd1443daddc0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 004/240] fix: release the spectrum buffers of the moment
 scratch space

---
 source/RKScratch.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 34863d2..abdf5cf 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -275,9 +275,15 @@ void RKMomentScratchFree(RKMomentScratch *scratch) {
     for (k = 0; k < scratch->capacity; k++) {
         free(scratch->inBuffer[k]);
         free(scratch->outBuffer[k]);
+        free(scratch->fS[0][k]);
+        free(scratch->fS[1][k]);
+        free(scratch->fC[k]);
     }
     free(scratch->inBuffer);
     free(scratch->outBuffer);
+    free(scratch->fS[0]);
+    free(scratch->fS[1]);
+    free(scratch->fC);
     free(scratch);
 }
 
-- 
2.43.0


From 63e69e3be20503bec4c0be797f86d39076933afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 005/240] fix: do not read past the ray when every gate is in
 use

---
 source/RKScratch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index abdf5cf..e04e884 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -631,7 +631,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
         PhiXVi++;
     }
     // If the space has been used for the same gateCount calculations, it should remain zero
-    if (*ZHi != 0.0 || *zhu != 0) {
+    if (ray->header.gateCount < ray->header.capacity && (*ZHi != 0.0 || *zhu != 0)) {
         memset(shu, 0, (ray->header.capacity - ray->header.gateCount) * sizeof(uint8_t));
         memset(zhu, 0, (ray->header.capacity - ray->header.gateCount) * sizeof(uint8_t));
         memset(vhu, 0, (ray->header.capacity - ray->header.gateCount) * sizeof(uint8_t));
-- 
2.43.0


From 992d37b01836b748c0208dfc007c8314c52b5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 006/240] fix: calibrate every filter of the waveform over its
 output range

---
 source/RKCalibrator.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCalibrator.c b/source/RKCalibrator.c
index 0c3ccb8..5c55631 100644
--- a/source/RKCalibrator.c
+++ b/source/RKCalibrator.c
@@ -13,9 +13,9 @@ void RKCalibratorSimple(RKUserResource _Nullable ignore, RKMomentScratch *space)
     RKFloat r = 0.0f;
     RKConfig *config = space->config;
     RKFilterAnchor *filterAnchors = config->waveformDecimate->filterAnchors[0];
-    for (k = 0; k < config->waveformDecimate->count; k++) {
+    for (k = 0; k < config->waveformDecimate->filterCounts[0]; k++) {
         //RKLog("RKCalibratorSimple: k=%d: %d ... %d\n", k, filterAnchors[k].outputOrigin, MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount));
-        for (i = filterAnchors[k].inputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
+        for (i = filterAnchors[k].outputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
             r = (RKFloat)i * space->gateSizeMeters;
             for (p = 0; p < 2; p++) {
                 space->S2Z[p][i] = 20.0f * log10f(r) + config->systemZCal[p] + config->ZCal[k][p] - filterAnchors[k].sensitivityGain - space->samplingAdjustment;
-- 
2.43.0


From 1a86e9fd25cddcf9bac2dbb0456532690960b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 007/240] fix: keep the spectral processor within the FFT plans
 and its buffers

---
 source/RKSpectralMoment.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKSpectralMoment.c b/source/RKSpectralMoment.c
index cb8e759..034b39f 100644
--- a/source/RKSpectralMoment.c
+++ b/source/RKSpectralMoment.c
@@ -18,7 +18,9 @@ int RKSpectralMoment(RKMomentScratch *space, RKPulse **pulses, const uint16_t pu
     RKPulse *pulse;
 
     // Always choose an order that is slightly higher
-    int offt = MIN(space->fftModule->count, (int)ceilf(log2f((float)pulseCount * 1.2f)));
+    // but no more than the plans available and the allocated space, which is for RKMaximumPulsesPerRay
+    int offt = MIN((int)ceilf(log2f((float)RKMaximumPulsesPerRay)), (int)ceilf(log2f((float)pulseCount * 1.2f)));
+    offt = MIN((int)space->fftModule->count - 1, offt);
     int planSize = space->fftModule->plans[offt].size;
 
     //RKLog("%s -> %s",
-- 
2.43.0


From 3a4ed33be69d5dff9a8d0be5c0652244a8fe7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 008/240] fix: stop the noise estimator from summing past the
 remaining noise gates

---
 source/RKNoiseEstimator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKNoiseEstimator.c b/source/RKNoiseEstimator.c
index 8a73019..ebddfba 100644
--- a/source/RKNoiseEstimator.c
+++ b/source/RKNoiseEstimator.c
@@ -332,6 +332,10 @@ int RKRayNoiseEstimator(RKMomentScratch *space, RKPulse **pulses, const uint16_t
         // RKLog("I am here before n, noise %f (ADU^2)\n", intermediate_power * iq_pm);
         // RKLog("< NoiseEngine > crash 317.\n");
         for (n = 0; n < 10; n++) {
+            if (noiseGateCount < runSumLength) {
+                // Not enough gates for a running sum
+                break;
+            }
             // RKLog("< NoiseEngine > Info. init noiseGateCount = %d\n", noiseGateCount);
             for (k = 0; k < noiseGateCount; k++) {
                 space->mask[k] = 0;
-- 
2.43.0


From 9d7e3d0f6e3e33458c45315200d0c2bbc1ea6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 009/240] fix: taper both ends of a Tukey window alike

---
 source/RKWindow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWindow.c b/source/RKWindow.c
index 33370c8..57fd1ab 100644
--- a/source/RKWindow.c
+++ b/source/RKWindow.c
@@ -165,7 +165,7 @@ void tukey(double *w, const int n, const double r) {
             t += dt;
         }
         for (; i < n; i++) {
-            w[i] = 0.5 * (1.0 + cos(M_PI / p * (t + p)));
+            w[i] = 0.5 * (1.0 + cos(M_PI / p * (t - 1.0 + p)));
             t += dt;
         }
     }
-- 
2.43.0


From a807b7f38c45321aef4136a0739e35f319388e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 010/240] fix: reject truncated or inconsistent waveform files
 without closing the caller's file

---
 source/RKFileHeader.c |  5 +++++
 source/RKWaveform.c   | 47 +++++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..692eff9 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -90,6 +90,11 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL) {
+            RKLog("Error. Failed reading the waveform.\n");
+            free(fileHeader);
+            return NULL;
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..fa0f8fd 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1033,9 +1033,25 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. No file header from %p.\n", fid);
+        free(fileHeader);
+        return NULL;
+    }
+    if (fileHeader->count == 0 || fileHeader->count > RKMaximumWaveformCount ||
+        fileHeader->depth == 0 || fileHeader->depth > RKMaximumGateCount) {
+        RKLog("Error. This waveform is invalid.  count = %d   depth = %s\n",
+              fileHeader->count, RKIntegerToCommaStyleString(fileHeader->depth));
+        free(fileHeader);
+        return NULL;
+    }
+    for (k = 0; k < fileHeader->count; k++) {
+        if (fileHeader->filterCounts[k] == 0 || fileHeader->filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCounts[%d] = %d\n", k, fileHeader->filterCounts[k]);
+            free(fileHeader);
+            return NULL;
+        }
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
-    strncpy(waveform->name, fileHeader->name, RKNameLength);
+    strncpy(waveform->name, fileHeader->name, RKNameLength - 1);
     waveform->type = fileHeader->type;
     waveform->fc = fileHeader->fc;
     waveform->fs = fileHeader->fs;
@@ -1044,8 +1060,10 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     }
     for (k = 0; k < waveform->count; k++) {
         r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
-        if (r == 0) {
+        if (r != fileHeader->filterCounts[k]) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
             return NULL;
         }
         // Output data from the first filter is allowed up to the maximum
@@ -1056,15 +1074,16 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
-            if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
-                RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
+            if (waveform->filterAnchors[k][j].origin > waveform->depth - waveform->filterAnchors[k][j].length) {
+                RKLog("Error. This waveform is invalid.  origin = %s + length = %s > depth %s\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
-                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+                      RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
+                      RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
@@ -1072,7 +1091,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
@@ -1080,17 +1099,23 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
+                free(fileHeader);
                 return NULL;
             }
         }
         r = fread(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading complex samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
         r = fread(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid);
-        if (r == 0) {
+        if (r != waveform->depth) {
             RKLog("Error. Failed reading int16 samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            free(fileHeader);
+            return NULL;
         }
     }
     RKWaveformCalculateGain(waveform, RKWaveformGainAll);
-- 
2.43.0


From 04d8a05f7097a9974cce34b7b8511f974d7a1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 011/240] fix: pass the window parameter and no blend from
 RKWaveformApplyWindow

---
 source/RKWaveform.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index fa0f8fd..c6ced73 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -351,11 +351,15 @@ RKResult RKWaveformApplyWindow(RKWaveform *waveform, const RKWindowType type, ..
     }
     memset(window, 0, waveform->depth * sizeof(RKFloat));
 
-    va_start(args, type);
-    parameter = va_arg(args, double);
-    va_end(args);
-
-    RKWindowMake(window, type, waveform->depth, parameter, 0);
+    // Only these windows come with a parameter
+    if (type == RKWindowTypeKaiser || type == RKWindowTypeTrapezoid || type == RKWindowTypeTukey) {
+        va_start(args, type);
+        parameter = va_arg(args, double);
+        va_end(args);
+        RKWindowMake(window, type, waveform->depth, parameter, 0.0);
+    } else {
+        RKWindowMake(window, type, waveform->depth, 0.0);
+    }
 
     g = 0.0;
     w = window;
-- 
2.43.0


From bef4c574be7d8748188a624835c1d67cd1dc7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 012/240] fix: name a waveform after the file, within the space
 of the name

---
 source/RKWaveform.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index c6ced73..8d3308b 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1018,12 +1018,8 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
         return RKResultFailedToOpenFileForWriting;
     }
     if (strlen(waveform->name) == 0) {
-        char *lastPart = strchr(filename, '/');
-        if (lastPart == NULL) {
-            strcpy(waveform->name, filename);
-        } else {
-            strcpy(waveform->name, lastPart + 1);
-        }
+        const char *lastPart = strrchr(filename, '/');
+        snprintf(waveform->name, RKNameLength, "%s", lastPart == NULL ? filename : lastPart + 1);
     }
     RKWaveformWriteToReference(waveform, fid);
     fclose(fid);
-- 
2.43.0


From 8a771cf2bca4ac3f43383fd46fa6e399eeabb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 013/240] fix: do not write past the waveform samples in down
 conversion

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 8d3308b..59d7736 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -730,7 +730,7 @@ void RKWaveformDownConvert(RKWaveform *waveform) {
     // All filters should have a unity noise gain so an equivalent sensitivity gain vs a 1-us pulse can be derived.
     for (i = 0; i < waveform->count; i++) {
         // Go through the waveform samples (filters)
-        RKSIMD_iymul(s, waveform->samples[i], waveform->depth);
+        RKSIMD_iymul_reg(s, waveform->samples[i], waveform->depth);
         float x = 0.0f;
         for (j = 0; j < waveform->filterCounts[i]; j++) {
             // Go through it once to figure out the peak sample. Could be different than RKWaveformCalculateGain()
-- 
2.43.0


From 2a06257e778834c770bd259e9d12221c27e57579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 014/240] fix: do not look for a hop stride of zero hops

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 59d7736..61d8767 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -508,7 +508,7 @@ void RKWaveformFrequencyHops(RKWaveform *waveform, const double fs, const double
     const double delta = waveform->count <= 2 ? 0.0 : bandwidth / (double)((waveform->count / 2) - 1);
 
     // Find the best stride to hop
-    int stride = RKBestStrideOfHops(waveform->count / 2, false);
+    int stride = RKBestStrideOfHops(count, false);
 
     // Some variables:
     // omega = discrete frequency
-- 
2.43.0


From 406a72c3bd37d715d0335aac28001bbb59f7f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 015/240] fix: carry over the full scale of an appended
 waveform

---
 source/RKWaveform.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 61d8767..85debfe 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -326,6 +326,7 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     waveform->filterAnchors[0][1].subCarrierFrequency = appendix->filterAnchors[0][0].subCarrierFrequency;
     waveform->filterAnchors[0][1].sensitivityGain = appendix->filterAnchors[0][0].sensitivityGain;
     waveform->filterAnchors[0][1].filterGain = appendix->filterAnchors[0][0].filterGain;
+    waveform->filterAnchors[0][1].fullScale = appendix->filterAnchors[0][0].fullScale;
 
     memcpy(waveform->iSamples[0] + waveform->depth, appendix->iSamples[0], appendix->depth * sizeof(RKInt16C));
     memcpy(waveform->samples[0] + waveform->depth, appendix->samples[0], appendix->depth * sizeof(RKComplex));
-- 
2.43.0


From 11d7091f73446421ad3e9b9fdd4c0e32f4078975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 016/240] fix: keep the gates of each ring filter worker within
 the filtered gates and the pulse

---
 source/RKPulseRingFilter.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..cc10c5b 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -477,9 +477,9 @@ static void *pulseRingWatcher(void *_in) {
         worker->id = c;
         worker->sem = sem[c];
         worker->parent = engine;
-        worker->processOrigin = origin;
-        worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->processOrigin = MIN(origin, engine->radarDescription->pulseCapacity);
+        worker->processLength = MIN(length, engine->radarDescription->pulseCapacity - worker->processOrigin);
+        worker->outputLength = gateCount > origin ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -538,9 +538,9 @@ static void *pulseRingWatcher(void *_in) {
                 origin = 0;
                 for (c = 0; c < engine->coreCount; c++) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
-                    worker->processOrigin = origin;
-                    worker->processLength = length;
-                    worker->outputLength = MIN(gateCount - origin, length);
+                    worker->processOrigin = MIN(origin, engine->radarDescription->pulseCapacity);
+                    worker->processLength = MIN(length, engine->radarDescription->pulseCapacity - worker->processOrigin);
+                    worker->outputLength = gateCount > origin ? MIN(gateCount - origin, length) : 0;
                     origin += length;
                     if (engine->verbose) {
                         RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
@@ -736,9 +736,9 @@ static void *pulseRingWatcherV1(void *_in) {
         worker->id = c;
         worker->sem = sem[c];
         worker->parent = engine;
-        worker->processOrigin = origin;
-        worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->processOrigin = MIN(origin, engine->radarDescription->pulseCapacity);
+        worker->processLength = MIN(length, engine->radarDescription->pulseCapacity - worker->processOrigin);
+        worker->outputLength = gateCount > origin ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -845,9 +845,9 @@ static void *pulseRingWatcherV1(void *_in) {
             origin = 0;
             for (c = 0; c < engine->coreCount; c++) {
                 RKPulseRingFilterWorker *worker = &engine->workers[c];
-                worker->processOrigin = origin;
-                worker->processLength = length;
-                worker->outputLength = MIN(gateCount - origin, length);
+                worker->processOrigin = MIN(origin, engine->radarDescription->pulseCapacity);
+                worker->processLength = MIN(length, engine->radarDescription->pulseCapacity - worker->processOrigin);
+                worker->outputLength = gateCount > origin ? MIN(gateCount - origin, length) : 0;
                 origin += length;
                 if (engine->verbose) {
                     RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
-- 
2.43.0


From 304883aaf1393da44373ecc75d42f1d7a6377e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 017/240] fix: allocate ring filter history for the padded
 number of gates of a worker

---
 source/RKPulseRingFilter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index cc10c5b..425cd01 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -168,7 +168,8 @@ static void *ringFilterCore(void *_in) {
     RKIQZ xx;
     RKIQZ yy;
     const int depth = RKMaximumIIRFilterTaps;
-    size_t filterSize = depth * engine->radarDescription->pulseCapacity / engine->coreCount * sizeof(RKFloat);
+    // Each worker gets an integer number of aligned blocks, which can be more than the capacity divided by the number of workers
+    size_t filterSize = depth * (size_t)ceilf((float)engine->radarDescription->pulseCapacity * sizeof(RKFloat) / engine->coreCount / RKMemoryAlignSize) * RKMemoryAlignSize;
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.i, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.q, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&yy.i, RKMemoryAlignSize, 2 * filterSize));
-- 
2.43.0


From 88be5db02572ddcbc2c77930ee920c4c8c5bc68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 018/240] fix: reset the filter counts of every waveform group

---
 source/RKPulseEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..3942e18 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1124,7 +1124,7 @@ int RKPulseEngineResetFilters(RKPulseEngine *engine) {
     // If engine->filterGroupCount is set to 0, gid may be undefined segmentation fault
     engine->filterGroupCount = 1;
     engine->filterCounts[0] = 1;
-    for (int k = 1; k < RKMaximumFilterCount; k++) {
+    for (int k = 1; k < RKMaximumWaveformCount; k++) {
         engine->filterCounts[k] = 0;
     }
     return RKResultSuccess;
-- 
2.43.0


From 5497c9ef084b66003f2a89efec851ba97aaabd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 019/240] fix: release every filter of the pulse engine

---
 source/RKPulseEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 3942e18..5786985 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -988,8 +988,8 @@ void RKPulseEngineFree(RKPulseEngine *engine) {
     if (engine->state & RKEngineStateWantActive) {
         RKPulseEngineStop(engine);
     }
-    for (int i = 0; i < engine->filterGroupCount; i++) {
-        for (int j = 0; j < engine->filterCounts[i]; j++) {
+    for (int i = 0; i < RKMaximumWaveformCount; i++) {
+        for (int j = 0; j < RKMaximumFilterCount; j++) {
             if (engine->filters[i][j] != NULL) {
                 free(engine->filters[i][j]);
             }
-- 
2.43.0


From b35a4d9110e1336492149329685cd225fc335ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 020/240] fix: make updates of the engine state atomic, so that
 a request to stop is not lost

---
 headers/RadarKit/RKTypes.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..e4cc08c 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -897,7 +897,14 @@ enum {
 //                    RKEngineStateActive -
 //                    (RKEngineStateChildAllocated | RKEngineStateChildProperlyWired | RKEngineStateAllocated | RKEngineStateProperlyWired)
 //
+// The state is updated by the engine threads and by the threads that start and stop the engine.
+// An update must not undo another one, e.g., the removal of RKEngineStateWantActive
+//
+#if defined(__cplusplus)
 typedef uint32_t RKEngineState;
+#else
+typedef _Atomic uint32_t RKEngineState;
+#endif
 enum {
     RKEngineStateNull                            = 0,                          // Nothing
     RKEngineStateSleep0                          = 1,                          // Usually for a wait just outside of the main while loop
@@ -1537,10 +1544,13 @@ typedef struct rk_status {
     uint8_t              recorderLag;
 } RKStatus;
 
+#pragma pack(pop)
+
 //
 // Simple engine
 //
 // - File monitor, etc.
+// - Aligned, the state is atomic
 //
 typedef struct rk_simple_engine {
     RKName               name;                                                 // Engine name
@@ -1565,6 +1575,8 @@ typedef struct rk_file_monitor {                                               /
     void                 *userResource;                                        // User defined resource
 } RKFileMonitor;
 
+#pragma pack(push, 1)
+
 //
 // User product from other processing nodes
 //
-- 
2.43.0


From 1ad5a0c449a12f119e99298f63f0c651949d7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 021/240] fix: keep the sign out of the digit grouping and
 bound the grouped string of large numbers

---
 source/RKMisc.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..3ad0993 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -614,20 +614,23 @@ char *RKIntegerToCommaStyleString(const long long num) {
     pthread_mutex_unlock(&lock);
 
     i = sprintf(string, "%lld", num);
+    // Digits only, the sign does not take part in the grouping
+    char *digits = string[0] == '-' ? string + 1 : string;
+    i -= (int)(digits - string);
     if (i <= 3) {
         return string;
     }
 
-    k = (int)(strlen(string) - 1) / 3;
-    i = (int)(strlen(string) + k);
+    k = (i - 1) / 3;
+    i += k;
     j = 1;
-    string[i] = '\0';
+    digits[i] = '\0';
     while (i > 0) {
         i--;
-        string[i] = string[i - k];
+        digits[i] = digits[i - k];
         if (j > 3) {
             j = 0;
-            string[i] = ',';
+            digits[i] = ',';
             k--;
         }
         j++;
@@ -681,27 +684,36 @@ char *RKFloatToCommaStyleString(const double num) {
     ibuf = ibuf == 31 ? 0 : ibuf + 1;
     pthread_mutex_unlock(&lock);
 
+    if (!(fabs(num) < 1.0e18)) {
+        // Too long for the buffer with the grouping, or not a number at all
+        snprintf(string, sizeof(stringBuffer[0]), "%.3e", num);
+        return string;
+    }
+
     i = sprintf(string, "%.3f", num);
+    // Digits only, the sign does not take part in the grouping
+    char *digits = string[0] == '-' ? string + 1 : string;
+    i -= (int)(digits - string);
     if (i <= 7) {
         return string;
     }
 
-    k = (int)(strlen(string) - 5) / 3;
-    i = (int)(strlen(string) + k);
+    k = (i - 5) / 3;
+    i += k;
     j = 1;
-    string[i] = '\0';
-    string[i - 1] = string[i - k - 1];
-    string[i - 2] = string[i - k - 2];
-    string[i - 3] = string[i - k - 3];
-    string[i - 4] = '.';
+    digits[i] = '\0';
+    digits[i - 1] = digits[i - k - 1];
+    digits[i - 2] = digits[i - k - 2];
+    digits[i - 3] = digits[i - k - 3];
+    digits[i - 4] = '.';
     i -= 4;
 
     while (i > 0) {
         i--;
-        string[i] = string[i - k];
+        digits[i] = digits[i - k];
         if (j > 3) {
             j = 0;
-            string[i] = ',';
+            digits[i] = ',';
             k--;
         }
         j++;
-- 
2.43.0


From b81ecd21f44183c709d443f17d1aee5311b934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 022/240] fix: read only the bytes of the type when a value is
 made into a string, and take the string slot under the lock

---
 source/RKFoundation.c | 132 +++++++++++++++++++++---------------------
 1 file changed, 67 insertions(+), 65 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..9c9b1cc 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -805,118 +805,120 @@ void RKShowArray(const RKFloat *data, const char *letter, const int width, const
 }
 
 char *RKStringFromValue(const void *value, RKValueType type) {
-    char    *c = (char *)value;
-    float    f = *((float *)value);
-    double   d = *((double *)value);
-    int      i = *((int *)value);
-    long     l = *((long *)value);
-    unsigned int u = *((unsigned int *)value);
-    unsigned long ul = *((unsigned long *)value);
-    int8_t    i8 = *((int8_t *)value);
-    uint8_t   u8 = *((uint8_t *)value);
-    int16_t  i16 = *((int16_t *)value);
-    uint16_t u16 = *((uint16_t *)value);
-    int32_t  i32 = *((int32_t *)value);
-    uint32_t u32 = *((uint32_t *)value);
-    int64_t  i64 = *((int64_t *)value);
-    uint64_t u64 = *((uint64_t *)value);
-    size_t     s = *((size_t *)value);
-    ssize_t   ss = *((ssize_t *)value);
+    // Read only what the type says, the storage behind value has no more than that
+    char *c = (char *)value;
     switch (type) {
         case RKValueTypeInt:
-            l = i;
+            c = RKIntegerToCommaStyleString((long long)*((int *)value));
+            break;
         case RKValueTypeLong:
-            c = RKIntegerToCommaStyleString(l);
+            c = RKIntegerToCommaStyleString((long long)*((long *)value));
             break;
         case RKValueTypeInt8:
-            i16 = i8;
+            c = RKIntegerToCommaStyleString((long long)*((int8_t *)value));
+            break;
         case RKValueTypeInt16:
-            i32 = i16;
+            c = RKIntegerToCommaStyleString((long long)*((int16_t *)value));
+            break;
         case RKValueTypeInt32:
-            i64 = i32;
+            c = RKIntegerToCommaStyleString((long long)*((int32_t *)value));
+            break;
         case RKValueTypeInt64:
-            c = RKIntegerToCommaStyleString(i64);
+            c = RKIntegerToCommaStyleString((long long)*((int64_t *)value));
+            break;
+        case RKValueTypeSSize:
+            c = RKIntegerToCommaStyleString((long long)*((ssize_t *)value));
             break;
 
         case RKValueTypeIntInHex:
-            l = i;
+            c = RKIntegerToHexStyleString((long long)*((int *)value));
+            break;
         case RKValueTypeLongInHex:
-            c = RKIntegerToHexStyleString(l);
+            c = RKIntegerToHexStyleString((long long)*((long *)value));
             break;
         case RKValueTypeInt8InHex:
-            i16 = i8;
+            c = RKIntegerToHexStyleString((long long)*((int8_t *)value));
+            break;
         case RKValueTypeInt16InHex:
-            i32 = i16;
+            c = RKIntegerToHexStyleString((long long)*((int16_t *)value));
+            break;
         case RKValueTypeInt32InHex:
-            i64 = i32;
+            c = RKIntegerToHexStyleString((long long)*((int32_t *)value));
+            break;
         case RKValueTypeInt64InHex:
-            c = RKIntegerToHexStyleString(i64);
+            c = RKIntegerToHexStyleString((long long)*((int64_t *)value));
             break;
 
         case RKValueTypeUInt:
-            ul = u;
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((unsigned int *)value));
+            break;
         case RKValueTypeULong:
-            c = RKUIntegerToCommaStyleString((unsigned long long)ul);
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((unsigned long *)value));
             break;
         case RKValueTypeUInt8:
-            u16 = u8;
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((uint8_t *)value));
+            break;
         case RKValueTypeUInt16:
-            u32 = u16;
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((uint16_t *)value));
+            break;
         case RKValueTypeUInt32:
-            u64 = u32;
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((uint32_t *)value));
+            break;
         case RKValueTypeUInt64:
-            c = RKUIntegerToCommaStyleString((unsigned long long)u64);
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((uint64_t *)value));
+            break;
+        case RKValueTypeSize:
+            c = RKUIntegerToCommaStyleString((unsigned long long)*((size_t *)value));
             break;
 
         case RKValueTypeUIntInHex:
-            ul = u;
+            c = RKIntegerToHexStyleString((unsigned long long)*((unsigned int *)value));
+            break;
         case RKValueTypeULongInHex:
-            c = RKIntegerToHexStyleString((unsigned long long)ul);
+            c = RKIntegerToHexStyleString((unsigned long long)*((unsigned long *)value));
             break;
         case RKValueTypeUInt8InHex:
-            u16 = u8;
+            c = RKIntegerToHexStyleString((unsigned long long)*((uint8_t *)value));
+            break;
         case RKValueTypeUInt16InHex:
-            u32 = u16;
+            c = RKIntegerToHexStyleString((unsigned long long)*((uint16_t *)value));
+            break;
         case RKValueTypeUInt32InHex:
-            u64 = u32;
+            c = RKIntegerToHexStyleString((unsigned long long)*((uint32_t *)value));
+            break;
         case RKValueTypeUInt64InHex:
-            c = RKIntegerToHexStyleString((unsigned long long)u64);
+            c = RKIntegerToHexStyleString((unsigned long long)*((uint64_t *)value));
             break;
 
-        case RKValueTypeSize:
-            c = RKUIntegerToCommaStyleString((unsigned long long)s);
-            break;
-        case RKValueTypeSSize:
-            c = RKIntegerToCommaStyleString((long long)ss);
-            break;
         case RKValueTypeFloat:
-            d = f;
+            c = RKFloatToCommaStyleString(*((float *)value));
+            break;
         case RKValueTypeDouble:
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(*((double *)value));
             break;
         case RKValueTYpeFloatDividedBy1k:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e-3 * *((float *)value));
+            break;
         case RKValueTYpeDoubleDividedBy1k:
-            d = 1.0e-3 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e-3 * *((double *)value));
             break;
         case RKValueTYpeFloatDividedBy1M:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e-6 * *((float *)value));
+            break;
         case RKValueTYpeDoubleDividedBy1M:
-            d = 1.0e-6 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e-6 * *((double *)value));
             break;
         case RKValueTYpeFloatMultipliedBy1k:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e3 * *((float *)value));
+            break;
         case RKValueTYpeDoubleMultipliedBy1k:
-            d = 1.0e3 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e3 * *((double *)value));
             break;
         case RKValueTYpeFloatMultipliedBy1M:
-            d = f;
+            c = RKFloatToCommaStyleString(1.0e6 * *((float *)value));
+            break;
         case RKValueTYpeDoubleMultipliedBy1M:
-            d = 1.0e6 * d;
-            c = RKFloatToCommaStyleString(d);
+            c = RKFloatToCommaStyleString(1.0e6 * *((double *)value));
             break;
         case RKValueTypeNumericString:
         default:
@@ -938,15 +940,15 @@ char *RKVariableInString(const char *name, const void *value, RKValueType type)
         return NULL;
     }
 
-    char *string = stringBuffer[ibuf];
-    memset(string, 0, RKNameLength);
-
     pthread_mutex_lock(&lock);
+    char *string = stringBuffer[ibuf];
     ibuf = ibuf == 15 ? 0 : ibuf + 1;
     pthread_mutex_unlock(&lock);
 
+    memset(string, 0, RKNameLength);
+
     char *c = RKStringFromValue(value, type);
-    bool b = *((bool *)value);
+    bool b = type == RKValueTypeBool ? *((bool *)value) : false;
 
     if (rkGlobalParameters.showColor) {
         if (type == RKValueTypeNull) {
-- 
2.43.0


From b3c8adda61f809bbf1bf43b27d7744c1bb53dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 023/240] fix: keep a log message within its buffer and its
 buffers under the lock

---
 source/RKFoundation.c | 56 +++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 9c9b1cc..9a4c58b 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -105,19 +105,6 @@ int RKLog(const char *whatever, ...) {
     static char *filename = NULL;
     static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
 
-    if (msg == NULL) {
-        msg = (char *)malloc(RKMaximumStringLength * sizeof(char));
-    }
-    if (filename == NULL) {
-        filename = (char *)malloc(RKMaximumPathLength * sizeof(char));
-    }
-    if (msg == NULL || filename == NULL) {
-        fprintf(stderr, "Error in RKLog().\n");
-        free(filename);
-        free(msg);
-        return -1;
-    }
-
     if (whatever == NULL) {
         va_start(args, whatever);
         if (va_arg(args, void *) == NULL) {
@@ -130,24 +117,44 @@ int RKLog(const char *whatever, ...) {
             if (filename) {
                 free(filename);
             }
+            msg = NULL;
+            filename = NULL;
             pthread_mutex_destroy(&lock);
         }
         va_end(args);
         return 0;
     }
 
+    if (strlen(whatever) > RKMaximumStringLength - 256) {
+        fprintf(stderr, "RKLog() could potential crash for string '%s'\n", whatever);
+        return 1;
+    }
+
     pthread_mutex_lock(&lock);
 
+    if (msg == NULL) {
+        msg = (char *)malloc(RKMaximumStringLength * sizeof(char));
+    }
+    if (filename == NULL) {
+        filename = (char *)malloc(RKMaximumPathLength * sizeof(char));
+    }
+    if (msg == NULL || filename == NULL) {
+        fprintf(stderr, "Error in RKLog().\n");
+        free(filename);
+        free(msg);
+        filename = NULL;
+        msg = NULL;
+        pthread_mutex_unlock(&lock);
+        return -1;
+    }
+
     // Get the time
     gettimeofday(&utc, NULL);
-    memcpy(&tm, gmtime(&utc.tv_sec), sizeof(struct tm));
+    gmtime_r(&utc.tv_sec, &tm);
 
-    // Construct the string
+    // Construct the string, which always has room for the color reset and the end of the line
+    const int roof = RKMaximumStringLength - 16;
     va_start(args, whatever);
-    if (strlen(whatever) > RKMaximumStringLength - 256) {
-        fprintf(stderr, "RKLog() could potential crash for string '%s'\n", whatever);
-        return 1;
-    }
     if (rkGlobalParameters.logTimeOnly) {
         if (whatever[0] == '>') {
             i += sprintf(msg, "             ");
@@ -207,7 +214,8 @@ int RKLog(const char *whatever, ...) {
         }
         strncpy(colored_whatever + len, anchor, RKMaximumStringLength - len);
 
-        i += vsprintf(msg + i, colored_whatever, args);
+        i += vsnprintf(msg + i, roof - i, colored_whatever, args);
+        i = MIN(i, roof - 1);
 
         if (rkGlobalParameters.showColor) {
             sprintf(msg + i, RKNoColor);
@@ -215,11 +223,13 @@ int RKLog(const char *whatever, ...) {
 
         free(colored_whatever);
     } else {
-        vsprintf(msg + i, anchor, args);
+        i += vsnprintf(msg + i, roof - i, anchor, args);
+        i = MIN(i, roof - 1);
     }
 
-    if (whatever[strlen(whatever) - 1] != '\n') {
-        strncat(msg, "\n", RKMaximumStringLength - 1);
+    len = strlen(whatever);
+    if (len == 0 || whatever[len - 1] != '\n' || i == roof - 1) {
+        strcat(msg, "\n");
     }
     va_end(args);
     // Produce the string to the specified stream
-- 
2.43.0


From 4f240c61bf25c3012a155abb2900f84155015f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 024/240] fix: count the shared boundary pulse in the maximum
 number of pulses of a ray

---
 source/RKMomentEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..a5734c1 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -732,7 +732,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
@@ -1036,7 +1036,7 @@ static void *pulseGathererV1(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
-- 
2.43.0


From 45b154f6b60eefc63aaef3d022902f6c6487e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 025/240] fix: do not read past the pulse that ends a sweep
 when boundary pulses are excluded

---
 source/RKMomentEngine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index a5734c1..91ff780 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,12 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
-                        count--;
-                    }
                     if (pulse->header.marker & RKMarkerSweepEnd) {
                         count++;
                     }
+                    if (count > 1) {
+                        count--;
+                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
-- 
2.43.0


From 91eeff43b1e0ee62e6fb0eb73c0275867ff5921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 026/240] fix: forget the worker lag after skipping a chunk
 whether or not the engine is verbose

---
 source/RKMomentEngine.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 91ff780..805688c 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -706,8 +706,10 @@ static void *pulseGatherer(void *_in) {
             } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
-            if (--skipCounter == 0 && engine->verbose) {
-                RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+            if (--skipCounter == 0) {
+                if (engine->verbose) {
+                    RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+                }
                 for (i = 0; i < engine->coreCount; i++) {
                     engine->workers[i].lag = 0.0f;
                 }
@@ -1014,8 +1016,10 @@ static void *pulseGathererV1(void *_in) {
             } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
-            if (--skipCounter == 0 && engine->verbose) {
-                RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+            if (--skipCounter == 0) {
+                if (engine->verbose) {
+                    RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+                }
                 for (i = 0; i < engine->coreCount; i++) {
                     engine->workers[i].lag = 0.0f;
                 }
-- 
2.43.0


From 3924718ea8cd387fc7f96e6d365c94cbcfb7cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 027/240] fix: derive the specific phase from the gate spacing
 of the ray, not of the raw pulse

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 805688c..96f3f20 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -398,7 +398,7 @@ static void *momentEngineCore(void *in) {
             // The rest of the constants
             space->velocityFactor = 0.25f * engine->radarDescription->wavelength / config->prt[0] / M_PI;
             space->widthFactor = engine->radarDescription->wavelength / config->prt[0] / (2.0f * sqrtf(2.0f) * M_PI);
-            space->KDPFactor = 1.0f / S->header.gateSizeMeters;
+            space->KDPFactor = 1.0f / space->gateSizeMeters;
             space->config = config;
             // Show the info only if config has changed
             if (engine->verbose && configHasChanged) {
-- 
2.43.0


From 428c1e414a52fab59e721cf5c4eecc4e5e67c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 028/240] fix: calibrate again when the slot of a configuration
 is reused

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 96f3f20..d0a502b 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -374,7 +374,7 @@ static void *momentEngineCore(void *in) {
         config = &engine->configBuffer[E->header.configIndex];
 
         // Compute the range correction factor if needed.
-        if (ic != E->header.configIndex || ray->header.gateCount != space->gateCount) {
+        if (ic != E->header.configIndex || previousConfig->i != config->i || ray->header.gateCount != space->gateCount) {
             ic = E->header.configIndex;
             // At this point, gateCount and gateSizeMeters is no longer of the raw pulses, they have been adjusted according to pulseToRayRatio
             space->gateCount = ray->header.gateCount;
-- 
2.43.0


From 1157276a6773524534cf185ad673c48812f509a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 029/240] fix: keep the conversion of negative angles to ray
 bins defined

---
 source/RKMomentEngine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index d0a502b..2160904 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -720,12 +720,12 @@ static void *pulseGatherer(void *_in) {
                 marker = engine->configBuffer[pulse->header.configIndex].startMarker;
                 // marker = pulse->header.marker;
                 if ((marker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI) {
-                    pulse->header.positionIndex = (uint32_t)floorf(pulse->header.azimuthDegrees);
+                    pulse->header.positionIndex = (uint32_t)(int)floorf(pulse->header.azimuthDegrees);
                 } else if ((marker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI) {
-                    pulse->header.positionIndex = (uint32_t)floorf(pulse->header.elevationDegrees);
+                    pulse->header.positionIndex = (uint32_t)(int)floorf(pulse->header.elevationDegrees);
                 } else {
-                    pulse->header.positionIndex = (uint32_t)floorf(pulse->header.elevationDegrees) * 360
-                                                + (uint32_t)floorf(pulse->header.azimuthDegrees);
+                    pulse->header.positionIndex = (uint32_t)(int)floorf(pulse->header.elevationDegrees) * 360
+                                                + (uint32_t)(int)floorf(pulse->header.azimuthDegrees);
                 }
             }
             i0 = pulse->header.positionIndex;
-- 
2.43.0


From 318c9f542988703972dc2abe63eca5482ed5355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 030/240] fix: release the pulses that no ray takes, so that
 the recorder does not wait for them

---
 source/RKMomentEngine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 2160904..f91a70f 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -706,6 +706,7 @@ static void *pulseGatherer(void *_in) {
             } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
+            pulse->header.s |= RKPulseStatusUsedForMoments;
             if (--skipCounter == 0) {
                 if (engine->verbose) {
                     RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
@@ -730,6 +731,11 @@ static void *pulseGatherer(void *_in) {
             }
             i0 = pulse->header.positionIndex;
             if (pulse->header.marker & RKMarkerSweepBegin) {
+                // Pulses since the last ray do not go into any ray, release them
+                for (i = engine->momentSource[j].origin; count > 0; count--) {
+                    RKGetPulseFromBuffer(engine->pulseBuffer, i)->header.s |= RKPulseStatusUsedForMoments;
+                    i = RKNextModuloS(i, engine->radarDescription->pulseBufferDepth);
+                }
                 engine->momentSource[j].origin = k;
                 count = 0;
                 i1 = i0;
-- 
2.43.0


From 6146088561138da6612585f076898828c15ab4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 031/240] fix: leave the specific phase of the last gate
 without a value rather than that of an earlier ray

---
 source/RKPulsePair.c     | 2 ++
 source/RKPulsePairATSR.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/RKPulsePair.c b/source/RKPulsePair.c
index bf5633e..1abb3cd 100644
--- a/source/RKPulsePair.c
+++ b/source/RKPulsePair.c
@@ -145,6 +145,8 @@ void RKUpdateRadarProductsInScratchSpace(RKMomentScratch *space, const int gateC
             *v++ = space->KDPFactor * (s[k] - s[k - 1]);
         }
     }
+    // The last gate has no next gate
+    *v = NAN;
 }
 
 int RKPulsePair(RKMomentScratch *space, RKPulse **pulses, const uint16_t count) {
diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index 1ea9088..644454a 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -226,6 +226,8 @@ void RKUpdateATSRProductsInScratchSpace(RKMomentScratch *space, const int gateCo
         }
         *v++ = space->KDPFactor * (s[k] - s[k - 1]);
     }
+    // The last gate has no next gate
+    *v = NAN;
 }
 
 int RKPulsePairATSR(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
-- 
2.43.0


From d22e180cc0f1be52800fffafb090355b5a0f6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 032/240] fix: do not make a ray of a sweep end that has no
 pulse before it

---
 source/RKMomentEngine.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index f91a70f..ef64c57 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -744,10 +744,7 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
-                    if (count > 1) {
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
                 }
-- 
2.43.0


From b7d35b931592c2f9c0b4cfde5804aad10abc11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 033/240] fix: do not make a ray of pulses with different gate
 counts, whose last gates would be those of an earlier ray

---
 source/RKMomentEngine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index ef64c57..7a5a8c1 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -452,7 +452,8 @@ static void *momentEngineCore(void *in) {
         // printf("k = %d   is = %u   ie = %u\n", k, is, ie);
 
         // Duplicate a linear array for processor if we are to process; otherwise, just skip this group
-        if (path.length > 3 && deltaAzimuth < 3.0f && deltaElevation < 3.0f && pulses[0]->header.s & RKPulseStatusCompressed) {
+        if (path.length > 3 && deltaAzimuth < 3.0f && deltaElevation < 3.0f && pulses[0]->header.s & RKPulseStatusCompressed
+            && S->header.downSampledGateCount == E->header.downSampledGateCount) {
             // Initialize the scratch space
             prepareScratch(space);
             // Call the noise estimator
-- 
2.43.0


From 48c519e547cd668b25b6af9476e4c2da578c0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 034/240] fix: copy the whole volume coverage pattern to a
 product, not its first four bytes

---
 source/RKProduct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 2dc5303..7881499 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -101,7 +101,7 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     product->header.SNRThreshold = sweep->header.config.SNRThreshold;
     product->header.SQIThreshold = sweep->header.config.SQIThreshold;
     memcpy(product->header.waveformName, sweep->header.config.waveformName, sizeof(RKName));
-    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKMaximumCommandLength));
+    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, RKMaximumCommandLength);
 
     // Expand if the current capacity is not sufficient
     if (product->capacity < requiredCapacity) {
-- 
2.43.0


From 4dae62a2eb4f9123e4ea7ca91f748c45244d8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 035/240] fix: keep the pulse width of a product file in the
 unit it states

---
 source/RKProductFile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index cdbd4a1..4891984 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -174,7 +174,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     tmpi = (int)(1.0f / product->header.prt[0]);
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
-    tmpf = (float)product->header.pw[0] * 1000.0f;
+    tmpf = (float)product->header.pw[0] * 1.0e6f;
     nc_put_att_float(ncid, NC_GLOBAL, "PulseWidth-value", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "MaximumRange-unit", "KiloMeters");
     tmpf = 1.0e-3f * product->header.gateSizeMeters * product->header.gateCount;
@@ -462,10 +462,10 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    nc_get_att_int(ncid, NC_GLOBAL, "PulseWidth-value", &iv);
-    r = nc_get_att_text(ncid, NC_GLOBAL, "PulseWidth-unit", stringValue);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
-        product->header.pw[0] = 1.0e-3 * (float)iv;
+        product->header.pw[0] = 1.0e-6f * fv;
     }
     get_global_float_att(ncid, floatType, "NoiseH-ADU", &product->header.noise[0]);
     get_global_float_att(ncid, floatType, "NoiseV-ADU", &product->header.noise[1]);
-- 
2.43.0


From 51d2f5eaa200c6c1fe21d945e11dcf7db10d7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 036/240] fix: round the pulse repetition frequency of a
 product file and read its wavelength from where it is

---
 source/RKProductFile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 4891984..bfd9982 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -171,7 +171,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_put_att_float(ncid, NC_GLOBAL, "RangeFolded", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "RadarParameters", "PRF PulseWidth MaximumRange");
     put_global_text_att(ncid, "PRF-unit", "Hertz");
-    tmpi = (int)(1.0f / product->header.prt[0]);
+    tmpi = product->header.prt[0] > 0.0f ? (int)roundf(1.0f / product->header.prt[0]) : 0;
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
     tmpf = (float)product->header.pw[0] * 1.0e6f;
@@ -443,7 +443,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.gateSizeMeters = 0.0f;
     }
     nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-unit", &product->header.wavelength);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
@@ -451,7 +451,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
-            product->header.prt[0] = 1000.0f;
+            product->header.prt[0] = 1.0e-3f;
         } else {
             product->header.prt[0] = 1.0f / (RKFloat)iv;
         }
-- 
2.43.0


From cd76a3d78fa576bd9879c4b37b166381f2016754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 037/240] fix: label the calibration of a product file by its
 channel and filter

---
 source/RKProductFile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index bfd9982..7adc003 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -187,8 +187,8 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_put_att_float(ncid, NC_GLOBAL, "SystemDCal-dB", floatType, 1, &product->header.systemDCal);
     nc_put_att_float(ncid, NC_GLOBAL, "SystemPCal-Radians", floatType, 1, &product->header.systemPCal);
     nc_put_att_float(ncid, NC_GLOBAL, "ZCalH1-dB", floatType, 1, &product->header.ZCal[0][0]);
-    nc_put_att_float(ncid, NC_GLOBAL, "ZCalV1-dB", floatType, 1, &product->header.ZCal[1][0]);
-    nc_put_att_float(ncid, NC_GLOBAL, "ZCalH2-dB", floatType, 1, &product->header.ZCal[0][1]);
+    nc_put_att_float(ncid, NC_GLOBAL, "ZCalV1-dB", floatType, 1, &product->header.ZCal[0][1]);
+    nc_put_att_float(ncid, NC_GLOBAL, "ZCalH2-dB", floatType, 1, &product->header.ZCal[1][0]);
     nc_put_att_float(ncid, NC_GLOBAL, "ZCalV2-dB", floatType, 1, &product->header.ZCal[1][1]);
     nc_put_att_float(ncid, NC_GLOBAL, "DCal1-dB", floatType, 1, &product->header.DCal[0]);
     nc_put_att_float(ncid, NC_GLOBAL, "DCal2-dB", floatType, 1, &product->header.DCal[1]);
@@ -474,8 +474,8 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     get_global_float_att(ncid, floatType, "SystemDCal-dB", &product->header.systemDCal);
     get_global_float_att(ncid, floatType, "SystemPCal-Radians", &product->header.systemPCal);
     get_global_float_att(ncid, floatType, "ZCalH1-dB", &product->header.ZCal[0][0]);
-    get_global_float_att(ncid, floatType, "ZCalH2-dB", &product->header.ZCal[0][1]);
-    get_global_float_att(ncid, floatType, "ZCalV1-dB", &product->header.ZCal[1][0]);
+    get_global_float_att(ncid, floatType, "ZCalH2-dB", &product->header.ZCal[1][0]);
+    get_global_float_att(ncid, floatType, "ZCalV1-dB", &product->header.ZCal[0][1]);
     get_global_float_att(ncid, floatType, "ZCalV2-dB", &product->header.ZCal[1][1]);
     get_global_float_att(ncid, floatType, "DCal1-dB", &product->header.DCal[0]);
     get_global_float_att(ncid, floatType, "DCal2-dB", &product->header.DCal[1]);
-- 
2.43.0


From 1a173fa93775187107ddf57df5a0c517f4c383b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 038/240] fix: do not write uninitialized beamwidths of a sweep
 that is neither PPI nor RHI

---
 source/RKProductFile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 7adc003..bbac6c0 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -217,6 +217,8 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
+    } else {
+        memset(array1D, 0, product->header.rayCount * sizeof(RKFloat));
     }
     nc_put_var_float(ncid, variableIdBeamwidth, array1D);
     for (j = 0; j < product->header.rayCount; j++) {
@@ -245,6 +247,8 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
+    } else {
+        memset(array1D, 0, product->header.rayCount * sizeof(RKFloat));
     }
     nc_put_var_double(ncid, variableIdBeamwidth, array1D);
     for (j = 0; j < product->header.rayCount; j++) {
-- 
2.43.0


From 18d4f26eb51230c3da388aad0eb7fa38a6394e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 039/240] fix: do not read more of a product file than the
 buffers of a product hold

---
 source/RKProductFile.c | 148 +++++++++++++++++++++++++++++++----------
 1 file changed, 113 insertions(+), 35 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index bbac6c0..a0e5faa 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -9,16 +9,84 @@
 #include <RadarKit/RKProductFile.h>
 
 #if RKFloat == float
-#define rk_nc_get_var_float   nc_get_var_float
+#define rk_nc_get_vara_float   nc_get_vara_float
 #else
-#define rk_nc_get_var_float   nc_get_var_double
+#define rk_nc_get_vara_float   nc_get_vara_double
 #endif
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+// Text attribute, truncated to the size of the destination. Empty if it is missing or not a text
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    dst[0] = 0;
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR || n == 0) {
+        return;
+    }
+    char *text = (char *)malloc(n);
+    if (text == NULL) {
+        RKLog("Error. Unable to allocate memory for attribute %s.\n", name);
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        n = MIN(n, size - 1);
+        memcpy(dst, text, n);
+        dst[n] = 0;
+    }
+    free(text);
+}
+
+// True if the attribute is a single number
+static bool isScalarAttribute(const int ncid, const char *name) {
+    size_t n = 0;
+    nc_type type;
+    return nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) == NC_NOERR && n == 1 && type != NC_CHAR && type != NC_STRING;
+}
+
+static int get_scalar_float_att(const int ncid, const char *att, float *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_float(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+static int get_scalar_double_att(const int ncid, const char *att, double *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_double(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+static int get_scalar_int_att(const int ncid, const char *att, int *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_int(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+static int get_scalar_long_att(const int ncid, const char *att, long *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_long(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+// Up to width values of up to height rows of a variable, into rows of the given width
+static int getArray(const int ncid, const int variableId, RKFloat *dest, const size_t height, const size_t width) {
+    int k, r, rank;
+    int dimensionIds[NC_MAX_VAR_DIMS];
+    size_t j, lengths[2] = {1, 1};
+    if ((r = nc_inq_varndims(ncid, variableId, &rank)) != NC_NOERR) {
+        return r;
+    }
+    if (rank < 1 || rank > 2) {
+        RKLog("Warning. Unexpected array of %d dimensions.\n", rank);
+        return NC_EDIMSIZE;
+    }
+    if ((r = nc_inq_vardimid(ncid, variableId, dimensionIds)) != NC_NOERR) {
+        return r;
+    }
+    for (k = 0; k < rank; k++) {
+        if ((r = nc_inq_dimlen(ncid, dimensionIds[k], &lengths[k])) != NC_NOERR) {
+            return r;
+        }
+    }
+    const size_t count[2] = {1, MIN(width, lengths[1])};
+    for (j = 0; j < MIN(height, lengths[0]); j++) {
+        const size_t start[2] = {j, 0};
+        if ((r = rk_nc_get_vara_float(ncid, variableId, start, count, dest)) != NC_NOERR) {
+            return r;
+        }
+        dest += width;
+    }
+    return NC_NOERR;
 }
 
 static int put_global_text_att(const int ncid, const char *att, const char *text) {
@@ -27,9 +95,9 @@ static int put_global_text_att(const int ncid, const char *att, const char *text
 
 static int get_global_float_att(const int ncid, const nc_type type, const char *att, void *dest) {
     if (type == NC_FLOAT) {
-        return nc_get_att_float(ncid, NC_GLOBAL, att, (float *)dest);
+        return get_scalar_float_att(ncid, att, (float *)dest);
     }
-    return nc_get_att_double(ncid, NC_GLOBAL, att, (double *)dest);
+    return get_scalar_double_att(ncid, att, (double *)dest);
 }
 
 int RKProductFileWriterNC(RKProduct *product, const char *filename) {
@@ -327,6 +395,10 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
         RKLog("Info. gateCount = %d capped to %d\n", localGateCount, RKMaximumGateCount);
         localGateCount = RKMaximumGateCount;
     }
+    if (localRayCount > RKMaximumRaysPerSweep) {
+        RKLog("Info. rayCount = %d capped to %d\n", localRayCount, RKMaximumRaysPerSweep);
+        localRayCount = RKMaximumRaysPerSweep;
+    }
     *gateCount = (uint32_t)localGateCount;
     *rayCount = (uint32_t)localRayCount;
     nc_close(ncid);
@@ -390,6 +462,10 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         RKLog("Info. gateCount = %d capped to %d\n", gateCount, RKMaximumGateCount);
         gateCount = RKMaximumGateCount;
     }
+    if (rayCount > RKMaximumRaysPerSweep) {
+        RKLog("Info. rayCount = %d capped to %d\n", rayCount, RKMaximumRaysPerSweep);
+        rayCount = RKMaximumRaysPerSweep;
+    }
 
     // Double check the dimensions
     if (product->header.rayCount != (uint32_t)rayCount || product->header.gateCount != (uint32_t)gateCount) {
@@ -399,59 +475,59 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     RKGetSymbolFromFilename(filename, product->desc.symbol);
 
     // Global attributes
-    getGlobalTextAttribute(product->desc.name, "TypeName", ncid);
-    getGlobalTextAttribute(product->desc.unit, "Unit-value", ncid);
-    getGlobalTextAttribute(product->desc.colormap, "ColorMap-value", ncid);
-    getGlobalTextAttribute(stringValue, "ScanType", ncid);
+    getGlobalTextAttribute(product->desc.name, sizeof(product->desc.name), "TypeName", ncid);
+    getGlobalTextAttribute(product->desc.unit, sizeof(product->desc.unit), "Unit-value", ncid);
+    getGlobalTextAttribute(product->desc.colormap, sizeof(product->desc.colormap), "ColorMap-value", ncid);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "ScanType", ncid);
     if (!strcmp(stringValue, "PPI")) {
         product->header.isPPI = true;
     } else if (!strcmp(stringValue, "RHI")) {
         product->header.isRHI = true;
     }
-    getGlobalTextAttribute(product->header.radarName, "radarName-value", ncid);
-    getGlobalTextAttribute(product->header.waveformName, "Waveform", ncid);
-    getGlobalTextAttribute(product->header.vcpDefinition, "RadarKit-VCP-Definition", ncid);
+    getGlobalTextAttribute(product->header.radarName, sizeof(product->header.radarName), "radarName-value", ncid);
+    getGlobalTextAttribute(product->header.waveformName, sizeof(product->header.waveformName), "Waveform", ncid);
+    getGlobalTextAttribute(product->header.vcpDefinition, sizeof(product->header.vcpDefinition), "RadarKit-VCP-Definition", ncid);
 
-    r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &product->header.latitude);
+    r = get_scalar_double_att(ncid, "LatitudeDouble", &product->header.latitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+        r = get_scalar_float_att(ncid, "Latitude", &fv);
         if (r == NC_NOERR) {
             product->header.latitude = (double)fv;
         }
     }
-    r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &product->header.longitude);
+    r = get_scalar_double_att(ncid, "LongitudeDouble", &product->header.longitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+        r = get_scalar_float_att(ncid, "Longitude", &fv);
         if (r == NC_NOERR) {
             product->header.longitude = (double)fv;
         }
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &product->header.heading);
+    r = get_scalar_float_att(ncid, "Heading", &product->header.heading);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar heading found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &product->header.radarHeight);
+    r = get_scalar_float_att(ncid, "Height", &product->header.radarHeight);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar height found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &product->header.sweepElevation);
+    r = get_scalar_float_att(ncid, "Elevation", &product->header.sweepElevation);
     if (r != NC_NOERR && product->header.isPPI) {
         RKLog("Warning. No sweep elevation found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &product->header.sweepAzimuth);
+    r = get_scalar_float_att(ncid, "Azimuth", &product->header.sweepAzimuth);
     if (r != NC_NOERR && product->header.isRHI) {
         RKLog("Warning. No sweep azimuth found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "GateSize", &product->header.gateSizeMeters);
+    r = get_scalar_float_att(ncid, "GateSize", &product->header.gateSizeMeters);
     if (r != NC_NOERR) {
         product->header.gateSizeMeters = 0.0f;
     }
-    nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
+    get_scalar_long_att(ncid, "Time", &product->header.startTime);
+    r = get_scalar_float_att(ncid, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
-    r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+    r = get_scalar_int_att(ncid, "PRF-value", &iv);
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
@@ -462,12 +538,12 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     } else {
         RKLog("Warning. No PRF information found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+    r = get_scalar_float_att(ncid, "Nyquist_Vel-value", &fv);
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
-    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
+    r = get_scalar_float_att(ncid, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
         product->header.pw[0] = 1.0e-6f * fv;
     }
@@ -518,7 +594,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "elevation", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startElevation);
+        getArray(ncid, tmpId, product->startElevation, product->header.rayCount, 1);
     } else {
         RKLog("Warning. No elevation array.\n");
     }
@@ -528,7 +604,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "azimuth", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startAzimuth);
+        getArray(ncid, tmpId, product->startAzimuth, product->header.rayCount, 1);
     } else {
         RKLog("Warning. No azimuth array.\n");
     }
@@ -541,15 +617,17 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
             }
         }
         if (r == NC_NOERR) {
-            nc_get_var_float(ncid, tmpId, product->data);
-            product->header.gateSizeMeters = product->data[0];
+            const size_t index[2] = {0, 0};
+            if (nc_inq_varndims(ncid, tmpId, &iv) == NC_NOERR && iv <= 2 && nc_get_var1_float(ncid, tmpId, index, &fv) == NC_NOERR) {
+                product->header.gateSizeMeters = fv;
+            }
         }
     }
 
     // Data array
     r = nc_inq_varid(ncid, product->desc.name, &tmpId);
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->data);
+        getArray(ncid, tmpId, product->data, product->header.rayCount, product->header.gateCount);
         fp = product->data;
         for (r = 0; r < product->capacity; r++) {
             if (*fp == missing || *fp == folded) {
-- 
2.43.0


From 6eabfae32d30292571b23d173d5ee0d047d2e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 040/240] fix: read the files of RHI sweeps, whose rays are
 along the dimension Elevation

---
 source/RKProductFile.c | 10 ++++++++++
 source/RKSweepFile.c   |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index a0e5faa..13e2508 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -370,6 +370,11 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
@@ -437,6 +442,11 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index aa6ea33..4b7924a 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -117,6 +117,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
                 r = nc_inq_dimid(ncid, "azimuth", &tmpId);
             }
+            if (r != NC_NOERR) {
+                if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+                    r = nc_inq_dimid(ncid, "elevation", &tmpId);
+                }
+            }
             if (r != NC_NOERR) {
                 if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
                     r = nc_inq_dimid(ncid, "beam", &tmpId);
-- 
2.43.0


From 8ce543cea9a680568e81e42762844ea7e2e9301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 041/240] fix: do not read more of the files of a sweep than
 its rays and texts hold

---
 source/RKSweepFile.c | 119 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 96 insertions(+), 23 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 4b7924a..62a4bea 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -10,11 +10,75 @@
 
 #include <RadarKit/RKSweepFile.h>
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+// Text attribute, truncated to the size of the destination. Empty if it is missing or not a text
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    dst[0] = 0;
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR || n == 0) {
+        return;
+    }
+    char *text = (char *)malloc(n);
+    if (text == NULL) {
+        RKLog("Error. Unable to allocate memory for attribute %s.\n", name);
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        n = MIN(n, size - 1);
+        memcpy(dst, text, n);
+        dst[n] = 0;
+    }
+    free(text);
+}
+
+// True if the attribute is a single number
+static bool isScalarAttribute(const int ncid, const char *name) {
+    size_t n = 0;
+    nc_type type;
+    return nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) == NC_NOERR && n == 1 && type != NC_CHAR && type != NC_STRING;
+}
+
+static int get_scalar_float_att(const int ncid, const char *att, float *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_float(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+static int get_scalar_double_att(const int ncid, const char *att, double *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_double(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+static int get_scalar_int_att(const int ncid, const char *att, int *dest) {
+    return isScalarAttribute(ncid, att) ? nc_get_att_int(ncid, NC_GLOBAL, att, dest) : NC_ENOTATT;
+}
+
+// Up to width values of up to height rows of a variable, into rows of the given width
+static int getArray(const int ncid, const int variableId, float *dest, const size_t height, const size_t width) {
+    int k, r, rank;
+    int dimensionIds[NC_MAX_VAR_DIMS];
+    size_t j, lengths[2] = {1, 1};
+    if ((r = nc_inq_varndims(ncid, variableId, &rank)) != NC_NOERR) {
+        return r;
+    }
+    if (rank < 1 || rank > 2) {
+        RKLog("Warning. Unexpected array of %d dimensions.\n", rank);
+        return NC_EDIMSIZE;
+    }
+    if ((r = nc_inq_vardimid(ncid, variableId, dimensionIds)) != NC_NOERR) {
+        return r;
+    }
+    for (k = 0; k < rank; k++) {
+        if ((r = nc_inq_dimlen(ncid, dimensionIds[k], &lengths[k])) != NC_NOERR) {
+            return r;
+        }
+    }
+    const size_t count[2] = {1, MIN(width, lengths[1])};
+    for (j = 0; j < MIN(height, lengths[0]); j++) {
+        const size_t start[2] = {j, 0};
+        if ((r = nc_get_vara_float(ncid, variableId, start, count, dest)) != NC_NOERR) {
+            return r;
+        }
+        dest += width;
+    }
+    return NC_NOERR;
 }
 
 RKSweep *RKSweepFileRead(const char *inputFile) {
@@ -148,6 +212,10 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 RKLog("Info. gateCount = %d capped to %d\n", gateCount, RKMaximumGateCount);
                 gateCount = RKMaximumGateCount;
             }
+            if (rayCount > RKMaximumRaysPerSweep) {
+                RKLog("Info. rayCount = %d capped to %d\n", rayCount, RKMaximumRaysPerSweep);
+                rayCount = RKMaximumRaysPerSweep;
+            }
 
             // Derive the RKMemoryAlignSize compliant capacity
             capacity = (uint32_t)ceilf((float)gateCount / RKMemoryAlignSize) * RKMemoryAlignSize;
@@ -156,7 +224,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                   RKIntegerToCommaStyleString(rayCount), RKIntegerToCommaStyleString(gateCount), RKIntegerToCommaStyleString(capacity));
 
             // A scratch space for netcdf API
-            scratch = (void *)malloc(rayCount * capacity * sizeof(float));
+            if (rayCount == 0 || gateCount == 0) {
+                RKLog("Warning. Early return (no data)\n");
+                nc_close(ncid);
+                return NULL;
+            }
+            scratch = (void *)calloc(rayCount * capacity, sizeof(float));
             if (scratch == NULL) {
                 RKLog("Error. Unable to allocate memory for a scratch space.\n");
                 return NULL;
@@ -177,36 +250,36 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             ray = (RKRay *)sweep->rayBuffer;
 
             // Global attributes
-            getGlobalTextAttribute(typeName, "TypeName", ncid);
-            getGlobalTextAttribute(scanType, "ScanType", ncid);
-            getGlobalTextAttribute(sweep->header.desc.name, "radarName-value", ncid);
-            r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &sweep->header.desc.latitude);
+            getGlobalTextAttribute(typeName, sizeof(typeName), "TypeName", ncid);
+            getGlobalTextAttribute(scanType, sizeof(scanType), "ScanType", ncid);
+            getGlobalTextAttribute(sweep->header.desc.name, sizeof(sweep->header.desc.name), "radarName-value", ncid);
+            r = get_scalar_double_att(ncid, "LatitudeDouble", &sweep->header.desc.latitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+                r = get_scalar_float_att(ncid, "Latitude", &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.latitude = (double)fv;
                 }
             }
-            r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &sweep->header.desc.longitude);
+            r = get_scalar_double_att(ncid, "LongitudeDouble", &sweep->header.desc.longitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+                r = get_scalar_float_att(ncid, "Longitude", &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.longitude = (double)fv;
                 }
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &sweep->header.desc.heading);
+            r = get_scalar_float_att(ncid, "Heading", &sweep->header.desc.heading);
             if (r != NC_NOERR) {
                 RKLog("No radar heading found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &sweep->header.desc.radarHeight);
+            r = get_scalar_float_att(ncid, "Height", &sweep->header.desc.radarHeight);
             if (r != NC_NOERR) {
                 RKLog("No radar height found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &ray->header.sweepElevation);
+            r = get_scalar_float_att(ncid, "Elevation", &ray->header.sweepElevation);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypePPI) {
                 RKLog("Warning. No sweep elevation found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &ray->header.sweepAzimuth);
+            r = get_scalar_float_att(ncid, "Azimuth", &ray->header.sweepAzimuth);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypeRHI) {
                 RKLog("Warning. No sweep azimuth found.\n");
             }
@@ -217,7 +290,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 sweep->header.config.sweepAzimuth = ray->header.sweepAzimuth;
                 sweep->header.config.startMarker |= RKMarkerScanTypeRHI;
             }
-            r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+            r = get_scalar_int_att(ncid, "PRF-value", &iv);
             if (r == NC_NOERR) {
                 if (iv == 0) {
                     RKLog("Warning. Recorded PRF = 0 Hz, assuming 1000 Hz.\n");
@@ -227,7 +300,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             } else {
                 RKLog("Warning. No PRF information found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+            r = get_scalar_float_att(ncid, "Nyquist_Vel-value", &fv);
             if (r == NC_NOERR) {
                 sweep->header.desc.wavelength = 4.0f * fv * (RKFloat)sweep->header.config.prt[0];
                 RKLog("Radar wavelength = %.4f m\n", sweep->header.desc.wavelength);
@@ -238,7 +311,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "elevation", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getArray(ncid, tmpId, scratch, rayCount, 1);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -254,7 +327,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 r = nc_inq_varid(ncid, "azimuth", &tmpId);
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getArray(ncid, tmpId, scratch, rayCount, 1);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -271,7 +344,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getArray(ncid, tmpId, scratch, rayCount, 1);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -289,7 +362,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 }
             }
             if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+                getArray(ncid, tmpId, scratch, rayCount, 1);
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -340,7 +413,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("Base moment %s not found.\n", productNames[k]);
             continue;
         }
-        nc_get_var_float(ncid, tmpId, scratch);
+        getArray(ncid, tmpId, scratch, rayCount, gateCount);
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0


From 3d4b83e7643f6b38d62c1ee6c93d61a3e6df9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 042/240] fix: find the extension of a sweep file in a path
 that has other dots

---
 source/RKSweepFile.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 62a4bea..0526421 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -113,13 +113,10 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
 
     // Find the last '.'
     char *e = NULL;
-    e = strstr(inputFile, ".");
+    e = strrchr(inputFile, '.');
     if (e == NULL) {
         e = (char *)inputFile + strlen(inputFile) - 1;
     }
-    while (*(e + 1) >= '0' && *(e + 1) <= '9') {
-        e = strstr(e + 1, ".");
-    }
     // Find the previous '-'
     char *b = e;
     while (b != inputFile && *b != '-') {
-- 
2.43.0


From f7f958181e18eeac2860f743a10510c684f69fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 043/240] fix: close the files and free the sweep when reading
 a sweep ends early

---
 source/RKSweepFile.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 0526421..eade0ff 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -229,6 +229,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             scratch = (void *)calloc(rayCount * capacity, sizeof(float));
             if (scratch == NULL) {
                 RKLog("Error. Unable to allocate memory for a scratch space.\n");
+                nc_close(ncid);
                 return NULL;
             }
 
@@ -237,6 +238,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if (sweep == NULL) {
                 RKLog("Error. Unable to allocate memory.\n");
                 free(scratch);
+                nc_close(ncid);
                 return NULL;
             }
             memset(sweep, 0, sizeof(RKSweep));
@@ -393,12 +395,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("%s not found.\n", filename);
             continue;
         }
-        productList |= products[k];
 
         // Open the file
         if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
-            RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
+            RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
             free(scratch);
+            RKSweepFree(sweep);
             return NULL;
         }
 
@@ -408,8 +410,10 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         r = nc_inq_varid(ncid, productNames[k], &tmpId);
         if (r != NC_NOERR) {
             RKLog("Base moment %s not found.\n", productNames[k]);
+            nc_close(ncid);
             continue;
         }
+        productList |= products[k];
         getArray(ncid, tmpId, scratch, rayCount, gateCount);
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
-- 
2.43.0


From 445e13e95b98e55ac81ac2518c5f37de7b3fdb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 044/240] fix: do not look for more product symbols than there
 are when listing the files of a sweep

---
 source/RKFoundation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 9a4c58b..a5c7a80 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -489,6 +489,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     if (r == false) {
         //fprintf(stderr, "RKListFilesWithSamePrefix() Unable to continue.\n");
         RKLog("RKListFilesWithSamePrefix() Not a standard filename. Early return.\n");
+        closedir(dir);
         return 0;
     }
     char *ext = RKFileExtension(filename);
@@ -520,7 +521,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     strcpy(desiredSymbol[k++], "P");
     strcpy(desiredSymbol[k++], "R");
     strcpy(desiredSymbol[k++], "K");
-    for (k = 0; k < count; k++) {
+    for (k = 0; k < MIN(count, 7); k++) {
         RKGetSymbolFromFilename(list[k], symbol);
         //printf("k = %d   symbol = %s\n", k, symbol);
         if (!strcmp(symbol, desiredSymbol[k])) {
-- 
2.43.0


From b2240eddd99b25973a3338c0b18ec47f5fc91844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 045/240] fix: do not mark a PPI sweep as an RHI sweep as well

---
 source/RKSweepEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..1b5427b 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -944,7 +944,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     sweep->header.endTime = (time_t)E->header.endTime.tv_sec;
     sweep->header.baseProductList = overallBaseProductList;
     sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
+    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
     if (!sweep->header.isPPI && !sweep->header.isRHI) {
         config = &engine->configBuffer[T->header.configIndex];
         sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-- 
2.43.0


From 373b17467f97c2f255272f30212b768502736253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 046/240] fix: gather the base products a sweep has, not as
 many from the front of the list

---
 source/RKSweepEngine.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 1b5427b..d3fec1d 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -145,11 +145,16 @@ static void *sweepManager(void *in) {
     char *filelist = engine->scratchSpaces[index].filelist;
     char *summary = engine->scratchSpaces[index].summary;
 
-    int productCount = __builtin_popcount(sweep->header.baseProductList & engine->baseProductList);
+    const int productCount = __builtin_popcount(engine->baseProductList);
+    RKBaseProductList baseProductList = engine->baseProductList;
 
     // Base products
     size_t productMemoryUsage = 0;
     for (p = 0; p < productCount; p++) {
+        RKProductDesc productDescription = RKGetNextProductDescription(&baseProductList);
+        if (!(productDescription.baseProductList & sweep->header.baseProductList)) {
+            continue;
+        }
         if (engine->baseMomentProductIds[p]) {
             RKProduct *product = RKSweepEngineGetVacantProduct(engine, sweep, engine->baseMomentProductIds[p]);
             if (product == NULL) {
-- 
2.43.0


From de4797761545a425ab9ea9074e477341b5737690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 047/240] fix: look for products only within the product buffer
 of the sweep engine

---
 source/RKSweepEngine.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index d3fec1d..925f4dc 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -731,11 +731,11 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
-    while (engine->productBuffer[i].flag & RKProductStatusActive && i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
@@ -756,13 +756,13 @@ RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc de
 
 int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = 0x%04x.\n", engine->name, productId);
         return RKResultFailedToFindProductId;
     }
@@ -783,13 +783,13 @@ int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId)
 
 RKProduct *RKSweepEngineGetVacantProduct(RKSweepEngine *engine, RKSweep *sweep, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = %d.\n", engine->name, productId);
         return NULL;
     }
-- 
2.43.0


From 06eb58f7b2672c931396a2750c7b5ef7db4b87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 048/240] fix: wait for the ray releaser when the sweep engine
 stops

---
 source/RKSweepEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 925f4dc..a9b6668 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -538,6 +538,10 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From 0803f6913b396fe5bc31843f3d5f0c4d766aa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 049/240] fix: count a sweep as done only once when the sweep
 engine is stopping

---
 source/RKSweepEngine.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index a9b6668..dfdfdf6 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -176,12 +176,6 @@ static void *sweepManager(void *in) {
         return NULL;
     }
 
-    if (!(engine->state & RKEngineStateWantActive)) {
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
-    }
-
     // Mark the state
     engine->state |= RKEngineStateWritingFile;
 
-- 
2.43.0


From a3faa1cb66751fb7a64c4508b93c2f3ae1912cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 050/240] fix: leave the gates a ray does not have without a
 value in a product

---
 source/RKProduct.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 7881499..e828bdc 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -60,6 +60,7 @@ void RKProductBufferFree(RKProduct *buffer, const int depth) {
 
 int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     int k;
+    uint32_t g;
 
     // Required capacity, round to the next 90 ray count, next 100 gate count
     const uint32_t requiredCapacity = (uint32_t)ceilf(sweep->header.rayCount / 90.0f) * 90 * (uint32_t)ceilf(sweep->header.gateCount / 100.0f) * 100;
@@ -167,7 +168,11 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
             if (x == NULL) {
                 continue;
             }
-            memcpy(y, x, product->header.gateCount * sizeof(RKFloat));
+            const uint32_t gateCount = MIN(product->header.gateCount, sweep->rays[k]->header.gateCount);
+            memcpy(y, x, gateCount * sizeof(RKFloat));
+            for (g = gateCount; g < product->header.gateCount; g++) {
+                y[g] = NAN;
+            }
             y += product->header.gateCount;
         }
     }
-- 
2.43.0


From 6b7ba891bd57c8d412b04329ed5460f3318b9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 051/240] fix: name the files of a sweep by its own time, not
 by the time another thread converts

---
 source/RKRawDataRecorder.c | 6 ++++--
 source/RKSweepEngine.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..4c00c71 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -173,9 +173,11 @@ static void *pulseRecorder(void *in) {
             // New file
             time_t startTime = pulse->header.time.tv_sec;
             i = snprintf(filename, RKMaximumPathLength - RKMaximumPrefixLength - 30, "%s%s%s/", engine->radarDescription->dataPath, engine->radarDescription->dataPath[0] == '\0' ? "" : "/", RKDataFolderIQ);
-            i += strftime(filename + i, 9, "%Y%m%d", gmtime(&startTime));
+            struct tm tm;
+            gmtime_r(&startTime, &tm);
+            i += strftime(filename + i, 9, "%Y%m%d", &tm);
             i += snprintf(filename + i, RKMaximumPrefixLength + 2, "/%s-", engine->radarDescription->filePrefix);
-            i += strftime(filename + i, 16, "%Y%m%d-%H%M%S", gmtime(&startTime));
+            i += strftime(filename + i, 16, "%Y%m%d-%H%M%S", &tm);
             i += snprintf(filename + i, 5, ".%03d", (int)pulse->header.time.tv_usec / 1000);
             if (engine->rawDataType == RKRawDataTypeFromTransceiver) {
                 sprintf(filename + i, ".rkr");
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index dfdfdf6..1a37536 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -962,9 +962,11 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     memcpy(sweep->rays, rays + k, n * sizeof(RKRay *));
     // Make a suggested filename as .../[DATA_PATH]/20170119/PX10k-20170119-012345-E1.0 (no symbol and extension)
     k = sprintf(sweep->header.filename, "%s%s%s/", engine->radarDescription->dataPath, engine->radarDescription->dataPath[0] == '\0' ? "" : "/", RKDataFolderMoment);
-    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", gmtime(&sweep->header.startTime));
+    struct tm tm;
+    gmtime_r(&sweep->header.startTime, &tm);
+    k += strftime(sweep->header.filename + k, 10, "%Y%m%d", &tm);
     k += sprintf(sweep->header.filename + k, "/%s-", engine->radarDescription->filePrefix);
-    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", gmtime(&sweep->header.startTime));
+    k += strftime(sweep->header.filename + k, 16, "%Y%m%d-%H%M%S", &tm);
     if (sweep->header.isPPI) {
         k += sprintf(sweep->header.filename + k, "-E%.1f", sweep->header.config.sweepElevation);
     } else if (sweep->header.isRHI) {
-- 
2.43.0


From d45725b74a5a0bcfd33e58ed87d87012f46e624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 052/240] fix: return the folder of a filename, not the
 filename

---
 source/RKMisc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 3ad0993..ccc7aee 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -924,8 +924,9 @@ char *RKFolderOfFilename(const char *filename) {
     } else if (s == filename) {
         strcpy(folder, "/");
     } else {
-        strncpy(folder, filename, sizeof(folder) - 1);
-        folder[sizeof(folder) - 1] = '\0';
+        const size_t length = MIN((size_t)(s - filename), sizeof(folder) - 1);
+        memcpy(folder, filename, length);
+        folder[length] = '\0';
     }
     return folder;
 }
-- 
2.43.0


From 1f9eb3efdab30d4103e284148bec9fc383cccbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 053/240] fix: do not write a long file extension past the end
 of its buffer

---
 source/RKMisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index ccc7aee..659968c 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -938,7 +938,7 @@ char *RKFileExtension(const char *filename) {
         ext[0] = '\0';
         return ext;
     }
-    strcpy(ext, e);
+    snprintf(ext, sizeof(ext), "%s", e);
     return ext;
 }
 
-- 
2.43.0


From 3cbecace79066db4821ea75a64f6cea69914d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 054/240] fix: find the last parts of a path with few or no
 slashes

---
 source/RKMisc.c | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 659968c..c2efa68 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -886,34 +886,18 @@ char *RKLastPartOfPath(const char *path) {
 }
 
 char *RKLastTwoPartsOfPath(const char *path) {
-    char *a0 = strchr((char *)path, '/');
-    char *a1 = strchr(a0 + 1, '/');
-    char *a2 = strchr(a1 + 1, '/');
-    if (a0 == NULL) {
-        return a0;
-    } else if (a1 != NULL) {
-        if (a2 == NULL) {
-            return a1;
-        } else if (a2 != NULL) {
-            do {
-                a0 = a1;
-                a1 = a2;
-                a2 = strchr(a2 + 1, '/');
-            } while (a2 != NULL);
-        }
-    }
-    return a0 + 1;
+    return RKLastNPartsOfPath(path, 2);
 }
 
 char *RKLastNPartsOfPath(const char *path, const int n) {
     char *a = (char *)path + strlen(path);
     int k = 0;
-    do {
-        if (*--a == '/') {
-            k++;
+    while (a > path) {
+        if (*--a == '/' && ++k == n) {
+            return a + 1;
         }
-    } while (a > path && k < n);
-    return a + 1;
+    }
+    return a;
 }
 
 char *RKFolderOfFilename(const char *filename) {
-- 
2.43.0


From 76709e2b61f67a0d19acd9a371b5c535bc1943e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 055/240] fix: do not read past the end of a path that is a
 tilde

---
 source/RKMisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index c2efa68..a0b0cf3 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -943,7 +943,7 @@ char *RKPathStringByExpandingTilde(const char *path) {
             } else {
                 k++;
             }
-            snprintf(fullpath + k, sizeof(fullpath) - k, "/%s", c + 2);
+            snprintf(fullpath + k, sizeof(fullpath) - k, "/%s", c[1] == '\0' ? "" : c + 2);
         } else {
             fprintf(stderr, "Error. HOME environmental variable not set.\n");
             snprintf(fullpath, sizeof(fullpath), "%s", c);
-- 
2.43.0


From c04fec0213b510d11a5441c62471a04a9691524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 056/240] fix: convert the time of a string without sharing the
 result with other threads

---
 source/RKMisc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index a0b0cf3..0840b68 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -782,29 +782,31 @@ char *RKTimevalToString(const struct timeval time, int format) {
 
     char formatString[8];
     int n = 0, o = 0;
+    struct tm tm;
+    localtime_r(&time.tv_sec, &tm);
 
     if (format >= 1080) {
-        strftime(string, 20, "%Y/%m/%d %H:%M:%S", localtime(&time.tv_sec));
+        strftime(string, 20, "%Y/%m/%d %H:%M:%S", &tm);
         n = CLAMP(format - 1080, 0, 6);
         o = 19;
     } else if (format >= 860) {
-        strftime(string, 16, "%Y%m%d-%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 16, "%Y%m%d-%H%M%S", &tm);
         n = CLAMP(format - 860, 0, 6);
         o = 15;
     } else if (format >= 800) {
-        strftime(string, 9, "%Y%m%d", localtime(&time.tv_sec));
+        strftime(string, 9, "%Y%m%d", &tm);
         n = CLAMP(format - 800, 0, 6);
         o = 8;
     } else if (format >= 80) {
-        strftime(string, 9, "%H:%M:%S", localtime(&time.tv_sec));
+        strftime(string, 9, "%H:%M:%S", &tm);
         n = CLAMP(format - 80, 0, 6);
         o = 8;
     } else if (format >= 60) {
-        strftime(string, 7, "%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 7, "%H%M%S", &tm);
         n = CLAMP(format - 60, 0, 6);
         o = 6;
     } else {
-        strftime(string, 16, "%Y%m%d-%H%M%S", localtime(&time.tv_sec));
+        strftime(string, 16, "%Y%m%d-%H%M%S", &tm);
     }
     if (n > 0) {
         snprintf(formatString, 7, ".%%0%du", n);
-- 
2.43.0


From f500b221841e99cc3ecd6549b7f1884c62814416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 057/240] fix: strip and unquote strings that are empty or have
 no second quote

---
 source/RKMisc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 0840b68..f2874ca 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1017,6 +1017,9 @@ char *RKSignalString(const int signal) {
 // Strip out \r, \n, white space, \10 (BS), etc.
 int RKStripTail(char *string) {
     int k = 0;
+    if (*string == '\0') {
+        return 0;
+    }
     char *c = string + strlen(string) - 1;
     while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
         *c-- = '\0';
@@ -1030,7 +1033,10 @@ int RKUnquote(char *string) {
     if (q != '"' && q != '\'') {
         return (int)strlen(string);
     }
-    char *e = strrchr(string + 1, q);
+    char *e = string[1] == '\0' ? NULL : strrchr(string + 1, q);
+    if (e == NULL) {
+        return (int)strlen(string);
+    }
     int k = (int)(e - string - 1);
     memmove(string, string + 1, k);
     string[k] = '\0';
-- 
2.43.0


From 3b314aa44c47c8f6e2485936be4c41b6609c24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 058/240] fix: free the sweep in the sweep file reader without
 the sweep engine

---
 source/RKSweepFile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index eade0ff..9d0c952 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -400,7 +400,8 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
             RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
             free(scratch);
-            RKSweepFree(sweep);
+            RKRayBufferFree(sweep->rayBuffer);
+            free(sweep);
             return NULL;
         }
 
-- 
2.43.0


From 29046a4c9805f548b8a9b01020b65cca8635b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 059/240] fix: count a sweep that begins with the ray that ends
 the one before as busy

---
 source/RKSweepEngine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 1a37536..83df326 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -419,6 +419,12 @@ static void *rayGatherer(void *in) {
             RKLog("%s Warning. A sweep is complete is == j.\n", engine->name);
             ray->header.s = RKRayStatusVacant;
         } else if (ray->header.marker & RKMarkerSweepEnd) {
+            // This ray may also be the first ray of the next sweep
+            if (ray->header.marker & RKMarkerSweepBegin) {
+                pthread_mutex_lock(&engine->productMutex);
+                engine->business++;
+                pthread_mutex_unlock(&engine->productMutex);
+            }
             // Gather the rays
             n = 0;
             do {
-- 
2.43.0


From 148af37fca6dd5db90c1be33d02805e9b215d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 060/240] fix: wait for the sweep and the rays to be taken
 before the scratch space advances, also when the engine stops

---
 source/RKSweepEngine.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 83df326..672b617 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -103,7 +103,7 @@ static void *sweepManager(void *in) {
     RKSweep *sweep = RKSweepCollect(engine, index);
     if (sweep == NULL) {
         if (engine->verbose > 1) {
-            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", index);
+            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", engine->name, index);
         }
         pthread_mutex_lock(&engine->productMutex);
         engine->business--;
@@ -448,10 +448,12 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidSweepManager, NULL, sweepManager, engine)) {
                 RKLog("%s Error. Unable to launch a sweep writer.\n", engine->name);
+                tidSweepManager = (pthread_t)0;
+            } else {
+                do {
+                    usleep(50000);
+                } while (tic == engine->tic);
             }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
 
             // If the rayReleaser is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
             if (tidRayReleaser) {
@@ -460,10 +462,12 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidRayReleaser, NULL, rayReleaser, engine)) {
                 RKLog("%s Error. Unable to launch a ray releaser.\n", engine->name);
+                tidRayReleaser = (pthread_t)0;
+            } else {
+                do {
+                    usleep(50000);
+                } while (tic == engine->tic);
             }
-            do {
-                usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
 
             // Ready for next collection while the sweepManager is busy
             engine->scratchSpaceIndex = RKNextModuloS(engine->scratchSpaceIndex, RKSweepScratchSpaceDepth);
-- 
2.43.0


From 2c85932e6a8a93097c05d846396a44b7ed55df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 061/240] fix: do not release a ray that already holds newer
 data

---
 headers/RadarKit/RKSweepEngine.h | 1 +
 source/RKSweepEngine.c           | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKSweepEngine.h b/headers/RadarKit/RKSweepEngine.h
index ccf4d29..95290dd 100644
--- a/headers/RadarKit/RKSweepEngine.h
+++ b/headers/RadarKit/RKSweepEngine.h
@@ -23,6 +23,7 @@ typedef struct rk_sweep_scratch {
     char                             filelist[RKMaximumListLength];              // It's really handleFilesScript + file list
     char                             summary[RKMaximumStringLength];
     RKRay                            *rays[RKMaximumRaysPerSweep];
+    RKIdentifier                     rayIds[RKMaximumRaysPerSweep];              // Identities of the rays when they were gathered
     uint32_t                         rayCount;
 } RKSweepScratchSpace;
 
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 672b617..c289ed5 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -68,7 +68,10 @@ static void *rayReleaser(void *in) {
     // Set them free
     for (i = 0; i < space->rayCount; i++) {
         ray = space->rays[i];
-        ray->header.s = RKRayStatusVacant;
+        // The slot may have been reused since the ray was gathered
+        if (ray->header.i == space->rayIds[i]) {
+            ray->header.s = RKRayStatusVacant;
+        }
     }
     space->rayCount = 0;
 
@@ -437,6 +440,9 @@ static void *rayGatherer(void *in) {
             ray->header.n = is;
             rays[n++] = ray;
             engine->scratchSpaces[engine->scratchSpaceIndex].rayCount = n;
+            for (s = 0; s < n; s++) {
+                engine->scratchSpaces[engine->scratchSpaceIndex].rayIds[s] = rays[s]->header.i;
+            }
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepEnd   is = %d   j = %d   n = %d\n", engine->name, is, j, n);
             }
-- 
2.43.0


From 41549ee0a11c38d5ecc679223f204e1de007582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 062/240] fix: do not call the file handling script without
 files

---
 source/RKSweepEngine.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index c289ed5..889e32b 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -188,7 +188,8 @@ static void *sweepManager(void *in) {
     }
 
     int summarySize = 0;
-    char filename[RKMaximumPathLength];
+    int fileCount = 0;
+    char filename[RKMaximumPathLength] = "";
     size_t filelistLength = strlen(filelist);
 
     // Product recording
@@ -212,6 +213,7 @@ static void *sweepManager(void *in) {
         // Full filename with symbol and extension
         sprintf(product->header.suggestedFilename, "%s-%s.%s", sweep->header.filename, product->desc.symbol, engine->productFileExtension);
         strncpy(filename, product->header.suggestedFilename, RKMaximumPathLength);
+        fileCount++;
 
         // Keep concatenating the filename into filelist
         if (engine->hasFileHandlingScript) {
@@ -285,7 +287,7 @@ static void *sweepManager(void *in) {
         RKLog("%s %s\n", engine->name, summary);
     }
 
-    if (record && engine->hasFileHandlingScript) {
+    if (record && fileCount && engine->hasFileHandlingScript) {
         if (engine->verbose > 1) {
             RKLog("%s CMD: %s\n", engine->name, filelist);
         }
-- 
2.43.0


From b4363cd9eabe7a3bf20cb5dc969df5d8d9f895bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 063/240] fix: begin a file with the first pulse a raw data
 recorder sees

---
 source/RKRawDataRecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c00c71..0c12d5d 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -85,7 +85,7 @@ static void *pulseRecorder(void *in) {
 
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
-    j = 0;   // config index
+    j = -1;  // config index, none yet
     k = 0;   // pulse index
     n = 0;   // pulse sample count
     while (engine->state & RKEngineStateWantActive) {
-- 
2.43.0


From d59ff22c78d22420c30a4f7ab97e329613254ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 064/240] fix: decide once per pulse whether raw data is
 recorded, so that no change goes unnoticed

---
 source/RKRawDataRecorder.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 0c12d5d..5871d7b 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -48,7 +48,8 @@ static void *pulseRecorder(void *in) {
 
     struct timeval t0, t1;
 
-    bool record = engine->record;
+    bool record = engine->record;   // The choice of the previous pulse
+    bool recordThisPulse = record;
 
     RKPulse *pulse;
     RKConfig *config;
@@ -131,7 +132,8 @@ static void *pulseRecorder(void *in) {
         engine->state |= RKEngineStateWritingFile;
 
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        recordThisPulse = engine->record;
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != recordThisPulse) {
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
@@ -191,7 +193,7 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (recordThisPulse && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
@@ -229,7 +231,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (recordThisPulse && engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -275,7 +277,7 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
+        record = recordThisPulse;
         n++;
     }
 
-- 
2.43.0


From 2b16b927e29f8f871adb3993477579ec2a238290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 065/240] fix: write the rest of the raw data and report the
 file when the recorder stops

---
 source/RKRawDataRecorder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 5871d7b..c9be5f0 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -282,10 +282,13 @@ static void *pulseRecorder(void *in) {
     }
 
     if (engine->fd) {
+        RKRawDataRecorderCacheFlush(engine);
         close(engine->fd);
         engine->fd = 0;
         if (engine->fileWriteCount == 0) {
             remove(filename);
+        } else if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
         }
     }
 
-- 
2.43.0


From 29dbb8abdf86b07b8f7e04e6b435e6e28fdda6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 066/240] fix: start a raw data file empty and do not record
 into a file that cannot be opened

---
 source/RKRawDataRecorder.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index c9be5f0..6e2272f 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -198,9 +198,15 @@ static void *pulseRecorder(void *in) {
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
                 fileHeader->config.waveform = NULL;
-                engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
+                engine->fd = open(filename, O_CREAT | O_WRONLY | O_TRUNC, 0000644);
+                if (engine->fd < 0) {
+                    RKLog("%s Error. Unable to create %s (errno = %d)\n", engine->name, filename, errno);
+                    engine->fd = 0;
+                }
                 engine->fileWriteCount = 0;
                 engine->cacheWriteIndex = 0;
+            }
+            if (recordThisPulse && engine->fd) {
                 len = RKRawDataRecorderCacheWrite(engine, fileHeader, sizeof(RKFileHeader));
                 // 512-B wave header
                 strcpy(waveGlobalHeader->name, waveform->name);
-- 
2.43.0


From 872b455c4f22f24255f9c5d7eadfd19c72256710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 067/240] fix: report an incomplete write of raw data without a
 missing argument

---
 source/RKRawDataRecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 6e2272f..c02b81e 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -451,7 +451,7 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
         engine->fileWriteCount++;
         if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKIntegerToCommaStyleString((int)writtenSize));
         }
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
-- 
2.43.0


From ab4b03a2e5f1f77feaa553386f99834c4819f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 068/240] fix: do not mark pulses as recorded that are being
 filled again

---
 source/RKRawDataRecorder.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index c02b81e..5b091f4 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -262,9 +262,14 @@ static void *pulseRecorder(void *in) {
             while (pulseCount > 0) {
                 pulseCount--;
                 i = RKPreviousModuloS(i, engine->radarDescription->pulseBufferDepth);
+                if (i == *engine->pulseIndex) {
+                    pulseCount = 0;
+                    break;
+                }
                 pulse = RKGetPulseFromBuffer(engine->pulseBuffer, i);
-                if (pulse->header.s != RKPulseStatusVacant) {
-                    pulse->header.s |= RKPulseStatusRecorded;
+                RKPulseStatus status = pulse->header.s;
+                if (status != RKPulseStatusVacant) {
+                    __sync_bool_compare_and_swap(&pulse->header.s, status, status | RKPulseStatusRecorded);
                 }
             }
         }
-- 
2.43.0


From 011250a801469a47c4715062c6100faf64c8b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 069/240] fix: read pulses of older files, and none of a file
 that ends or holds more gates than the pulse

---
 source/RKFoundation.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index a5c7a80..0386d0a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1254,11 +1254,14 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
                 headerV1 = (RKPulseHeaderV1 *)malloc(sizeof(RKPulseHeaderV1));
             }
             readsize = fread(headerV1, sizeof(RKPulseHeaderV1), 1, fid);
+            if (readsize == 0) {
+                break;
+            }
             pulse->header.i = headerV1->i;
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
@@ -1278,6 +1281,9 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
                 header = (RKPulseHeader *)malloc(sizeof(RKPulseHeader));
             }
             readsize = fread(header, sizeof(RKPulseHeader), 1, fid);
+            if (readsize == 0) {
+                break;
+            }
             pulse->header.i = header->i;
             pulse->header.n = header->n;
             pulse->header.t = header->t;
@@ -1312,6 +1318,12 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
         pulse->header.capacity = capacity;
         RKLog("Warning. Pulse capacity restored.\n");
     }
+    if (MAX(pulse->header.gateCount, pulse->header.downSampledGateCount) > capacity) {
+        RKLog("Error in RKReadPulseFromFileReference() %s gates > %s\n",
+              RKIntegerToCommaStyleString(MAX(pulse->header.gateCount, pulse->header.downSampledGateCount)),
+              RKIntegerToCommaStyleString(capacity));
+        return RKResultTooBig;
+    }
     // Pulse payload: H and V data into channels 0 and 1, respectively. Duplicate to split-complex storage
     for (j = 0; j < 2; j++) {
         if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
-- 
2.43.0


From 2f810e2b4ffe7dce695a1e9f5b4fa8e8aac64b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 070/240] fix: free the samples of the waveforms of a file
 header

---
 source/RKFileHeader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 692eff9..5da612b 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -18,8 +18,8 @@ RKFileHeader *RKFileHeaderAlloc(void) {
 }
 
 void RKFileHeaderFree(RKFileHeader *fileHeader) {
-    free(fileHeader->config.waveformDecimate);
-    free(fileHeader->config.waveform);
+    RKWaveformFree(fileHeader->config.waveformDecimate);
+    RKWaveformFree(fileHeader->config.waveform);
     free(fileHeader);
 }
 
@@ -103,7 +103,7 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         for ( k = 0; k < waveform->count; k++) {
             r += waveform->filterCounts[k] * sizeof(RKFilterAnchor);
         }
-        r += waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
+        r += waveform->count * waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
         if (fp != r) {
             RKLog("Error. I detected a bug.  fp = %s != %s\n", RKIntegerToCommaStyleString(fp), RKIntegerToCommaStyleString(r));
         }
-- 
2.43.0


From ceeeca40a28018bf9c0d93b9c1d9c9426d11efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 071/240] fix: return nothing for a raw data file of an unknown
 version or without a header, instead of ending the program

---
 source/RKFileHeader.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 5da612b..6e777ca 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -32,20 +32,28 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
     r = fread(fileHeader, sizeof(RKFileHeader), 1, fid);
     if (r == 0) {
         RKLog("Error. Failed reading file header.\n");
-        exit(EXIT_FAILURE);
+        free(fileHeader);
+        return NULL;
     }
     r *= sizeof(RKFileHeader);
 
     if (fileHeader->version <= 4) {
         RKLog("Error. Sorry but I am not programmed to read version %d. Ask my father.\n", fileHeader->version);
-        exit(EXIT_FAILURE);
+        free(fileHeader);
+        return NULL;
+    } else if (fileHeader->version > 5 && (fileHeader->desc.pulseToRayRatio == 0 || fileHeader->desc.pulseToRayRatio > RKMaximumGateCount)) {
+        RKLog("Error. This file header is invalid.  pulseToRayRatio = %u\n", fileHeader->desc.pulseToRayRatio);
+        free(fileHeader);
+        return NULL;
     } else if (fileHeader->version == 5) {
         rewind(fid);
         RKFileHeaderV1 *fileHeaderV1 = (RKFileHeaderV1 *)malloc(sizeof(RKFileHeaderV1));
         r = fread(fileHeaderV1, sizeof(RKFileHeaderV1), 1, fid);
         if (r == 0) {
             RKLog("Error. Failed reading file header.\n");
-            exit(EXIT_FAILURE);
+            free(fileHeaderV1);
+            free(fileHeader);
+            return NULL;
         }
         r *= sizeof(RKFileHeaderV1);
         RKLog("fileHeaderV1->dataType = %d (%s)\n",
-- 
2.43.0


From 8281f46802e596f6a52f6415f6338048bc07465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 072/240] fix: keep the filters of an older raw data file
 within their waveform

---
 source/RKFileHeader.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 6e777ca..9fa17ea 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -79,9 +79,20 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         strcat(fileHeader->config.waveformName, "-syn");
         // Initialize a waveformDecimate that matches the original config->filterAnchors
         uint32_t u32 = 0;
-        for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
+        bool valid = fileHeaderV1->config.filterCount > 0 && fileHeaderV1->config.filterCount <= RKMaximumFilterCount;
+        for (k = 0; valid && k < fileHeaderV1->config.filterCount; k++) {
+            valid = fileHeaderV1->config.filterAnchors[k].length <= RKMaximumGateCount;
             u32 += fileHeaderV1->config.filterAnchors[k].length;
         }
+        for (k = 0; valid && k < fileHeaderV1->config.filterCount; k++) {
+            valid = fileHeaderV1->config.filterAnchors[k].origin <= u32 - fileHeaderV1->config.filterAnchors[k].length;
+        }
+        if (!valid || u32 == 0 || fileHeaderV1->desc.pulseToRayRatio == 0) {
+            RKLog("Error. This file header is invalid.  filterCount = %d   depth = %u\n", fileHeaderV1->config.filterCount, u32);
+            free(fileHeaderV1);
+            free(fileHeader);
+            return NULL;
+        }
         // No raw (uncompressed) data prior to this built. Talk to Boonleng if you managed to, and needed to, process one
         RKWaveform *waveform = RKWaveformInitWithCountAndDepth(1, u32);
         strcpy(waveform->name, fileHeaderV1->config.waveform);
-- 
2.43.0


From 87a14aaf9df55f4eae2f0b6aae3cbdbbe5760316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 073/240] fix: read the pulse width, calibration and waveform
 name of an older raw data file

---
 source/RKFileHeader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 9fa17ea..36d63e6 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -69,12 +69,13 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.prt[0] = fileHeaderV1->config.prt[0];
         fileHeader->config.prt[1] = fileHeaderV1->config.prt[1];
         fileHeader->config.pw[0] = fileHeaderV1->config.pw[0];
-        fileHeader->config.pw[1] = fileHeaderV1->config.prt[1];
+        fileHeader->config.pw[1] = fileHeaderV1->config.pw[1];
         fileHeader->config.pulseGateCount = fileHeaderV1->config.pulseGateCount;
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
         fileHeader->config.waveformId[0] = fileHeaderV1->config.waveformId[0];
-        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 22 * 2 + 22 + 22 + 2) * sizeof(RKFloat));
+        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + RKMaximumFilterCount * 2 + RKMaximumFilterCount + RKMaximumFilterCount + 2) * sizeof(RKFloat));
+        fileHeaderV1->config.waveform[RKNameLength - 5] = '\0';
         strcpy(fileHeader->config.waveformName, fileHeaderV1->config.waveform);
         strcat(fileHeader->config.waveformName, "-syn");
         // Initialize a waveformDecimate that matches the original config->filterAnchors
-- 
2.43.0


From 7080550f5d2fbfef2d48438d1782b963e3fda879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 074/240] fix: remove empty data folders by their path, not by
 a shell command that splits, truncates and recurses

---
 source/RKFileManager.c | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..ff1a268 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -137,9 +137,8 @@ static bool isFolderEmpty(const char *path) {
 }
 
 static void refreshFileList(RKFileRemover *me) {
-    int i, j, k;
+    int j, k;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
     char string[RKMaximumStringLength];
     char format[32];
 
@@ -187,15 +186,8 @@ static void refreshFileList(RKFileRemover *me) {
             return;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
-            }
-            i = system(command);
-            if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+            if (rmdir(string)) {
+                RKLog("%s Error. Unable to remove %s   errno = %d\n", me->name, string, errno);
             }
         } else if (count == me->capacity - me->count) {
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
@@ -271,7 +263,6 @@ static void *fileRemover(void *in) {
     const int c = me->id;
 
     char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
 
@@ -408,15 +399,8 @@ static void *fileRemover(void *in) {
                 sprintf(path, "%s/%s", me->path, parentFolder);
                 if (isFolderEmpty(path)) {
                     RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
-                    if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
+                    if (rmdir(path)) {
+                        RKLog("%s Error. Unable to remove %s   errno = %d\n", me->name, path, errno);
                     }
                 }
                 RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-- 
2.43.0


From 2da5bb1c37be1c705128abce910b66b8a2178303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 075/240] fix: find the time of a data file whose prefix has a
 dash

---
 source/RKFileManager.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index ff1a268..ff28f3c 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -44,25 +44,18 @@ static int string_cmp_by_pseudo_time(const void *a, const void *b) {
 }
 
 static time_t timeFromFilename(const char *filename) {
-    char *yyyymmdd, *hhmmss;
-    yyyymmdd = strchr(filename, '-');
-    if (yyyymmdd == NULL) {
-        return 0;
-    }
-    yyyymmdd++;
-    hhmmss = strchr(yyyymmdd, '-');
-    if (hhmmss == NULL) {
-        return 0;
-    }
-    hhmmss++;
-    if (hhmmss - yyyymmdd > 9) {
-        // Filenames that do not follow the pattern XXXXXX-YYYYMMDD-HHMMSS-EXX.XX-PPPPPPPP.EEEEEEEE
-        RKLog("Warning. Unexpected file pattern.\n");
-        return 0;
-    }
+    const char *yyyymmdd;
     struct tm tm;
-    strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm);
-    return mktime(&tm);
+    for (yyyymmdd = strchr(filename, '-'); yyyymmdd != NULL; yyyymmdd = strchr(yyyymmdd, '-')) {
+        yyyymmdd++;
+        memset(&tm, 0, sizeof(struct tm));
+        if (strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm) != NULL) {
+            return timegm(&tm);
+        }
+    }
+    // Filenames that do not follow the pattern XXXXXX-YYYYMMDD-HHMMSS-EXX.XX-PPPPPPPP.EEEEEEEE
+    RKLog("Warning. Unexpected file pattern.\n");
+    return 0;
 }
 
 static int listElementsInFolder(RKPathname *list, const int maximumCapacity, const char *path, uint8_t type) {
-- 
2.43.0


From e37bd1a7cd736fc7973eecf5a6d991d975faa21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 076/240] fix: skip names that do not fit the list of files
 instead of cutting them short

---
 source/RKFileManager.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index ff28f3c..ea7d01d 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -85,7 +85,7 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             if ((type == DT_REG && S_ISREG(status.st_mode)) ||
                 (type == DT_DIR && S_ISDIR(status.st_mode))) {
                 r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-                if (r < 0) {
+                if (r < 0 || r >= RKFileManagerFilenameLength) {
                     RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
                     continue;
                 }
@@ -93,7 +93,7 @@ static int listElementsInFolder(RKPathname *list, const int maximumCapacity, con
             }
         } else if (dir->d_type == type && dir->d_name[0] != '.') {
             r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-            if (r < 0) {
+            if (r < 0 || r >= RKFileManagerFilenameLength) {
                 RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
                 continue;
             }
-- 
2.43.0


From cb746a1e29f32c60b614ff35f12d8dbe705e3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 077/240] fix: count the usage of a long list of files from the
 files there are

---
 source/RKFileManager.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index ea7d01d..abf090d 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -176,7 +176,7 @@ static void refreshFileList(RKFileRemover *me) {
         }
         if (count < 0) {
             RKLog("%s Error. Unable to list files in %s\n", me->name, string);
-            return;
+            continue;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
             if (rmdir(string)) {
@@ -193,7 +193,9 @@ static void refreshFileList(RKFileRemover *me) {
         }
         for (; j < me->count; j++) {
             sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
-            stat(string, &fileStat);
+            if (stat(string, &fileStat)) {
+                fileStat.st_size = 0;
+            }
             indexedStats[j].index = j;
             indexedStats[j].folderId = k;
             indexedStats[j].time = timeFromFilename(filenames[j]);
@@ -228,16 +230,20 @@ static void refreshFileList(RKFileRemover *me) {
         me->usage = 0;
         for (k = 0; k < folderCount; k++) {
             struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
+            snprintf(string, sizeof(string), "%s/%s", me->path, folders[k]);
             DIR *did = opendir(string);
             if (did == NULL) {
-                fprintf(stderr, "Unable to list folder '%s'\n", string);
+                // A folder without files has been removed
+                if (errno != ENOENT) {
+                    fprintf(stderr, "Unable to list folder '%s'\n", string);
+                }
                 continue;
             }
             while ((dir = readdir(did)) != NULL) {
-                sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
-                me->usage += fileStat.st_size;
+                snprintf(string, sizeof(string), "%s/%s/%s", me->path, folders[k], dir->d_name);
+                if (dir->d_name[0] != '.' && strlen(dir->d_name) < RKFileManagerFilenameLength && lstat(string, &fileStat) == 0 && S_ISREG(fileStat.st_mode)) {
+                    me->usage += fileStat.st_size;
+                }
             }
             closedir(did);
         }
-- 
2.43.0


From 081aa79a6838eb25b4bb4a8cbb382bbf28a093db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 078/240] fix: use the default limit for the kinds of data that
 the user set no limit for, instead of removing them all

---
 source/RKFileManager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index abf090d..244e128 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -692,7 +692,7 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
-- 
2.43.0


From 85aef890d398b3f9e9b286dd21b824e6e1b7e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 079/240] fix: check a reported file before it enters the list,
 and release the lock if it does not

---
 source/RKFileManager.c | 63 +++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 244e128..48e1412 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -739,16 +739,37 @@ int RKFileManagerStop(RKFileManager *engine) {
 }
 
 int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType type) {
-    RKFileRemover *me = &engine->workers[type];
+    pthread_mutex_lock(&engine->mutex);
 
-    if (!(engine->state & RKEngineStateWantActive)) {
+    if (!(engine->state & RKEngineStateWantActive) || engine->workers == NULL) {
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultEngineNotActive;
     }
 
-    pthread_mutex_lock(&engine->mutex);
+    if (type >= engine->workerCount) {
+        RKLog("%s Error. No folder for files of type %u\n", engine->name, type);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
+    RKFileRemover *me = &engine->workers[type];
+
+    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    const size_t pathLength = strlen(me->path);
+    const char *lastPart = strrchr(filename, '/');
+    if (strncmp(me->path, filename, pathLength) || filename[pathLength] != '/' || lastPart == filename + pathLength) {
+        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
+    const size_t folderLength = lastPart - filename - pathLength - 1;
+    lastPart++;
     struct stat fileStat;
-    stat(filename, &fileStat);
+    if (folderLength > RKFileManagerFilenameLength - 1 || strlen(lastPart) > RKFileManagerFilenameLength - 1 || stat(filename, &fileStat)) {
+        RKLog("%s Error. Unable to keep track of %s\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
     gettimeofday(&me->latestTime, NULL);
 
@@ -766,40 +787,12 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
-    // Extract out the date portion
-    char *lastPart = strrchr(filename, '/');
-    if (lastPart) {
-        if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s Error. I could crash here.\n", me->name);
-        }
-        if ((void *)&filenames[k] > ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength) {
-            RKLog("%s Error. I could crash here.   %p vs %p   k = %d / %d\n", me->name,
-                  (void *)&filenames[k], ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength,
-                  k, me->capacity);
-        }
-        strncpy(filenames[k], lastPart + 1, RKFileManagerFilenameLength - 1);
-    } else {
-        if (strlen(filename) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s %s Warning. Filename is too long.\n", engine->name,  me->name);
-        }
-        strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
-    }
-
-    if (strncmp(me->path, filename, strlen(me->path))) {
-        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
-        return RKResultFileManagerInconsistentFolder;
-    }
-
-    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    strcpy(filenames[k], lastPart);
 
     int folderId = 0;
     char *folder = engine->scratch;
-    strcpy(folder, filename + strlen(me->path) + 1);
-    char *e = strrchr(folder, '/');
-    *e = '\0';
-    if (strlen(folder) > RKFileManagerFilenameLength - 1) {
-        RKLog("%s Warning. Folder name is too long.\n", engine->name);
-    }
+    memcpy(folder, filename + pathLength + 1, folderLength);
+    folder[folderLength] = '\0';
     if (k == 0) {
         // The data folder is empty
         folderId = 0;
-- 
2.43.0


From 95fe03a174ac9d5dadb682f046c314a807c3eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 080/240] fix: keep the lists of files and folders of the file
 manager within their capacity when they are reused

---
 source/RKFileManager.c | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 48e1412..4546853 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -8,7 +8,7 @@
 
 #include <RadarKit/RKFileManager.h>
 
-#define RKFileManagerFolderListCapacity      60
+#define RKFileManagerFolderListCapacity      3660
 #define RKFileManagerLogFileListCapacity     1000
 
 // The way RadarKit names the files should be relatively short:
@@ -218,7 +218,7 @@ static void refreshFileList(RKFileRemover *me) {
     }
 
     // We can operate in a circular buffer fashion if all the files are accounted
-    if (me->count < me->capacity) {
+    if (me->count < me->capacity && folderCount < RKFileManagerFolderListCapacity) {
         me->reusable = true;
     } else {
         me->reusable = false;
@@ -369,7 +369,26 @@ static void *fileRemover(void *in) {
         }
 
         // Removing files
+        k = 0;
         while (me->usage > me->limit) {
+            // No more known files, list them again if there were others
+            if (me->index == me->count) {
+                if (me->reusable) {
+                    me->usage = 0;
+                    break;
+                } else if (k++) {
+                    // Once per round, as these files may not be removable
+                    break;
+                }
+                if (engine->verbose) {
+                    RKLog("%s Refreshing file list ...\n", me->name);
+                }
+                refreshFileList(me);
+                if (me->count == 0) {
+                    break;
+                }
+                continue;
+            }
             // Build the complete path from various components
             sprintf(path, "%s/%s/%s", me->path, folders[indexedStats[me->index].folderId], filenames[indexedStats[me->index].index]);
             if (engine->verbose) {
@@ -406,19 +425,12 @@ static void *fileRemover(void *in) {
                 strcpy(parentFolder, folders[indexedStats[me->index].folderId]);
             }
 
-            // Update the index for next check or refresh it entirely if there are too many files
+            // Update the index for next check, a list at capacity is followed by a refresh
             me->index++;
-            if (me->index == me->capacity) {
+            if (me->index == me->capacity && me->count != me->capacity) {
                 me->index = 0;
-                if (me->reusable) {
-                    if (engine->verbose) {
-                        RKLog("%s Reusable file list rotated to 0.\n", me->name);
-                    }
-                } else {
-                    if (engine->verbose) {
-                        RKLog("%s Refreshing file list ...\n", me->name);
-                    }
-                    refreshFileList(me);
+                if (engine->verbose) {
+                    RKLog("%s Reusable file list rotated to 0.\n", me->name);
                 }
             }
         }
@@ -787,24 +799,38 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
-    strcpy(filenames[k], lastPart);
-
     int folderId = 0;
+    bool full = RKNextModuloS(k, me->capacity) == me->index;
     char *folder = engine->scratch;
     memcpy(folder, filename + pathLength + 1, folderLength);
     folder[folderLength] = '\0';
-    if (k == 0) {
-        // The data folder is empty
+    if (k == me->index) {
+        // No known files
         folderId = 0;
         strcpy(folders[0], folder);
     } else {
-        folderId = indexedStats[k - 1].folderId;
+        folderId = indexedStats[RKPreviousModuloS(k, me->capacity)].folderId;
         // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
-        if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
-            folderId++;
-            strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
+        if (strcmp(folder, folders[folderId])) {
+            folderId = RKNextModuloS(folderId, RKFileManagerFolderListCapacity);
+            if (folderId == indexedStats[me->index].folderId) {
+                full = true;
+            } else {
+                strcpy(folders[folderId], folder);
+            }
         }
     }
+
+    // Every slot is used by a file that is still there: list the files again when the known ones are gone
+    if (full) {
+        RKLog("%s File list is at capacity.\n", me->name);
+        me->reusable = false;
+        me->usage += fileStat.st_size;
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerBufferNotResuable;
+    }
+
+    strcpy(filenames[k], lastPart);
     //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
 
     indexedStats[k].index = k;
-- 
2.43.0


From 7262b16d2e9a9225dde190d92cda0597ca9754ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 081/240] fix: do not hold the lock while the file manager
 stops, as its workers need it

---
 source/RKFileManager.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 4546853..75d708a 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -353,12 +353,12 @@ static void *fileRemover(void *in) {
               100.0f * me->usage / me->limit);
     }
 
+    engine->state |= RKEngineStateActive;
+
     me->tic++;
 
     pthread_mutex_unlock(&engine->mutex);
 
-    engine->state |= RKEngineStateActive;
-
     me->index = 0;
     while (engine->state & RKEngineStateWantActive) {
 
@@ -450,7 +450,9 @@ static void *fileRemover(void *in) {
 
     RKLog(">%s Stopped.\n", me->name);
 
-    engine->state ^= RKEngineStateActive;
+    pthread_mutex_lock(&engine->mutex);
+    engine->state &= ~RKEngineStateActive;
+    pthread_mutex_unlock(&engine->mutex);
     return NULL;
 }
 
@@ -613,7 +615,10 @@ static void *folderWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
+    pthread_mutex_lock(&engine->mutex);
     free(engine->workers);
+    engine->workers = NULL;
+    pthread_mutex_unlock(&engine->mutex);
 
     return NULL;
 }
@@ -736,17 +741,21 @@ int RKFileManagerStop(RKFileManager *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     pthread_mutex_lock(&engine->mutex);
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
+    pthread_mutex_unlock(&engine->mutex);
     pthread_join(engine->tidFileWatcher, NULL);
     engine->state ^= RKEngineStateDeactivating;
     RKLog("%s Stopped.\n", engine->name);
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 4cae37ad0d1b35830a82180087c1821e14660c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 082/240] fix: free the list of folders when the file manager
 stops

---
 source/RKFileManager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 75d708a..dba7c46 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -445,6 +445,7 @@ static void *fileRemover(void *in) {
         }
     }
 
+    free(folders);
     free(filenames);
     free(indexedStats);
 
-- 
2.43.0


From 3acdbf4a86285b5f5856b43c2dd8fe1b3f0b221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 083/240] fix: reuse the slot of a removed file name, not one
 that a listed file still uses

---
 source/RKFileManager.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index dba7c46..abbb585 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -146,6 +146,9 @@ static void refreshFileList(RKFileRemover *me) {
     me->index = 0;
     me->count = 0;
     me->usage = 0;
+    for (k = 0; k < me->capacity; k++) {
+        indexedStats[k].index = k;
+    }
 
     // Go through all folders
     int folderCount = listFoldersInFolder(folders, RKFileManagerFolderListCapacity, me->path);
@@ -840,12 +843,12 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         return RKResultFileManagerBufferNotResuable;
     }
 
-    strcpy(filenames[k], lastPart);
-    //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
+    // The list was sorted by time, so the name of the file that was here before may be in another slot
+    strcpy(filenames[indexedStats[k].index], lastPart);
+    //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[indexedStats[k].index], folderId);
 
-    indexedStats[k].index = k;
     indexedStats[k].folderId = folderId;
-    indexedStats[k].time = timeFromFilename(filenames[k]);
+    indexedStats[k].time = timeFromFilename(lastPart);
     indexedStats[k].size = fileStat.st_size;
 
     me->usage += fileStat.st_size;
-- 
2.43.0


From 3c970890fd037681fa1611edb2af094fe405b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 084/240] fix: leave out a bad waveform of a configuration
 change instead of returning with the lock held

---
 source/RKConfig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..1073046 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,7 +162,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
-                    return;
+                    break;
                 }
                 newConfig->waveform = waveform;
                 //strncpy(newConfig->waveformName, waveform->name, RKNameLength - 1);
@@ -173,7 +173,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
-                    return;
+                    break;
                 }
                 newConfig->waveformDecimate = waveform;
                 sprintf(stringBuffer[0], "WaveformDecimate = '%s' @ %p", waveform->name, waveform);
-- 
2.43.0


From 3a379292c16befe28fa088a5dcab9a9b1c9a8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 085/240] fix: keep the texts and the calibration of a
 configuration change within their bounds

---
 source/RKConfig.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 1073046..60e8303 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -83,13 +83,13 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 break;
             case RKConfigKeyPositionMarker:
                 newConfig->startMarker = va_arg(args, RKMarker);
-				sprintf(stringBuffer[0], "New sweep   EL %.2f°   AZ %.2f°   %s%s%s   %s",
+				snprintf(stringBuffer[0], RKStatusStringLength, "New sweep   EL %.2f°   AZ %.2f°   %s%s%s   %s",
                         newConfig->sweepElevation,
                         newConfig->sweepAzimuth,
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform ? RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8) : "");
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
@@ -128,7 +128,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string);
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
@@ -167,7 +167,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 newConfig->waveform = waveform;
                 //strncpy(newConfig->waveformName, waveform->name, RKNameLength - 1);
                 snprintf(newConfig->waveformName, RKNameLength, "%s", waveform->name) < 0 ? abort() : (void)0;
-                sprintf(stringBuffer[0], "Waveform = '%s' @ %p", waveform->name, waveform);
+                snprintf(stringBuffer[0], RKStatusStringLength, "Waveform = '%s' @ %p", waveform->name, waveform);
                 break;
             case RKConfigKeyWaveformDecimate:
                 waveform = (RKWaveform *)va_arg(args, void *);
@@ -216,7 +216,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 w0 = 0;
                 w1 = 0;
                 w2 = 0;
-                for (j = 0; j < waveformCal->count; j++) {
+                for (j = 0; j < MIN(waveformCal->count, RKMaximumFilterCount); j++) {
                     w0 = MAX(w0, (int)log10f(waveformCal->ZCal[j][0]));
                     w0 = MAX(w0, (int)log10f(waveformCal->ZCal[j][1]));
                     w1 = MAX(w1, (int)log10f(waveformCal->DCal[j]));
@@ -229,12 +229,12 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         w0 + 5,
                         w1 + 5,
                         w2 + 5);
-                for (j = 0; j < waveformCal->count; j++) {
+                for (j = 0; j < MIN(waveformCal->count, RKMaximumFilterCount); j++) {
                     newConfig->ZCal[j][0] = waveformCal->ZCal[j][0];
                     newConfig->ZCal[j][1] = waveformCal->ZCal[j][1];
                     newConfig->DCal[j] = waveformCal->DCal[j];
                     newConfig->PCal[j] = waveformCal->PCal[j];
-                    sprintf(stringBuffer[j], format, j, waveformCal->count, newConfig->ZCal[j][0], newConfig->ZCal[j][1], newConfig->DCal[j], newConfig->PCal[j]);
+                    snprintf(stringBuffer[j], RKStatusStringLength, format, j, waveformCal->count, newConfig->ZCal[j][0], newConfig->ZCal[j][1], newConfig->DCal[j], newConfig->PCal[j]);
                 }
                 break;
             case RKConfigKeySNRThreshold:
-- 
2.43.0


From 9e14f940dfa7327bed11609c9352852285dbda8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 086/240] fix: keep the lock of the configuration changes for
 the next radar

---
 source/RKConfig.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 60e8303..2dd49da 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -43,10 +43,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
     static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
 
     if (configs == NULL && configIndex == NULL && configBufferDepth == 0) {
-        #if defined(DEBUG_MUTEX_DESTROY)
-        fprintf(stderr, "RKConfigAdvance: Destroying static mutex lock ...\n");
-        #endif
-        pthread_mutex_destroy(&lock);
+        // Nothing to clean up: the static lock does not need to be destroyed, another radar may use it
         return;
     }
 
-- 
2.43.0


From 94c9c7938006116b16b355599dced401cb2b4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 087/240] fix: pass the PRF as the double that the
 configuration change reads, so that no other value is taken for it

---
 source/RKRadar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..e5e7d34 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1787,7 +1787,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
@@ -2744,7 +2744,7 @@ void RKSetStatusReady(RKRadar *radar, RKStatus *status) {
 // Note:
 //     The last key must be RKConfigKeyNull
 // Example:
-//     RKConfigAdd(radar, RKConfigKeyPRF, 1000, RKConfigNull) to set PRF
+//     RKConfigAdd(radar, RKConfigKeyPRF, 1000.0, RKConfigNull) to set PRF
 //     RKConfigAdd(radar, RKConfigKeySystemNoise, 0.3, 0.2, RKConfigNull) to set noise
 //
 // Users normally don't have to deal with these
-- 
2.43.0


From f9fd2e4f90d8ff11595d8b6303999d158b796af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 088/240] fix: refuse waveform calibrations, controls and
 health nodes beyond the capacity without counting them

---
 source/RKRadar.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index e5e7d34..7c67aae 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2773,9 +2773,9 @@ RKConfig *RKGetLatestConfig(RKRadar *radar) {
 //
 RKHealthNode RKRequestHealthNode(RKRadar *radar) {
     RKHealthNode node = RKHealthNodeUser1 + radar->healthNodeCount;
-    if (node == RKHealthNodeCount) {
+    if (node >= RKHealthNodeCount) {
         RKLog("Error. No more health node available.\n");
-        node = (RKHealthNode)-1;
+        return RKHealthNodeInvalid;
     }
     radar->healthNodeCount++;
     return node;
@@ -3034,11 +3034,11 @@ void RKUpdateWaveformCalibration(RKRadar *radar, const uint8_t index, const RKWa
 }
 
 void RKAddWaveformCalibration(RKRadar *radar, const RKWaveformCalibration *calibration) {
-    uint8_t index = radar->waveformCalibrationCount++;
-    if (index >= radar->desc.waveformCalibrationCapacity) {
+    if (radar->waveformCalibrationCount >= radar->desc.waveformCalibrationCapacity) {
         RKLog("Error. Cannot add anymore waveform calibration.\n");
         return;
     }
+    uint8_t index = radar->waveformCalibrationCount++;
     RKUpdateWaveformCalibration(radar, index, calibration);
 }
 
@@ -3069,20 +3069,20 @@ void RKUpdateControl(RKRadar *radar, const uint8_t index, const RKControl *contr
 }
 
 void RKAddControl(RKRadar *radar, const RKControl *control) {
-    uint8_t index = radar->controlCount++;
-    if (index >= radar->desc.controlCapacity) {
+    if (radar->controlCount >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    uint8_t index = radar->controlCount++;
     RKUpdateControl(radar, index, control);
 }
 
 void RKAddControlAsLabelAndCommand(RKRadar *radar, const char *label, const char *command) {
-    uint8_t index = radar->controlCount++;
-    if (index >= radar->desc.controlCapacity) {
+    if (radar->controlCount >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    uint8_t index = radar->controlCount++;
     RKControl *target = &radar->controls[index];
     strncpy(target->label, label, RKNameLength - 1);
     target->label[RKNameLength - 1] = '\0';
-- 
2.43.0


From a00f7ffebda8e5f600f9bdd8c66cea2d2e89eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 089/240] fix: keep the value of a key within the text it comes
 from and within its slot

---
 source/RKMisc.c | 86 +++++++++++++------------------------------------
 1 file changed, 22 insertions(+), 64 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index f2874ca..08af02e 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1,5 +1,10 @@
 #include <RadarKit/RKMisc.h>
 
+// Capacity of a health string, see RKTypes.h
+#if !defined(RKMaximumStringLength)
+#define RKMaximumStringLength 4096
+#endif
+
 #pragma mark - Colors
 
 char *RKGetColor(void) {
@@ -188,7 +193,7 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
 //  - Cannot handle certain conditions within quoted strings
 //
 char *RKGetValueOfKey(const char *string, const char *key) {
-    static char valueStrings[8][256];
+    static char valueStrings[8][RKMaximumStringLength];
     static int k = 7;
     static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
     if (string == NULL && key == NULL) {
@@ -205,6 +210,9 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     char *s, *e;
     size_t len;
     char quotedKey[256];
+    if (strlen(key) > sizeof(quotedKey) - 3) {
+        return NULL;
+    }
     sprintf(quotedKey, "\"%s\"", key);
     char *keyPosition = strcasestr(string, quotedKey);
     if (keyPosition == NULL) {
@@ -222,76 +230,26 @@ char *RKGetValueOfKey(const char *string, const char *key) {
         } else {
             return NULL;
         }
-        // Array
-        if (*s == '[') {
-            // Find the end of bracket, return the entire array
-            e = s + 1;
-            while (*e != ']') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '{') {
-            // Find the end of curly bracket, return the entire dictionary
-            e = s + 1;
-            while (*e != '}') {
+        e = s;
+        if (*s == '[' || *s == '{' || *s == '"' || *s == '\'') {
+            // Find the end of bracket / curly bracket / quote, return the entire array / dictionary / string
+            const char closure = *s == '[' ? ']' : (*s == '{' ? '}' : *s);
+            e++;
+            while (*e != closure && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '"') {
-            // Find the end of double quote, return the entire string
-            e = s + 1;
-            while (*e != '"') {
+            if (*e == closure) {
                 e++;
             }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '\'') {
-            // Find the end of single quote, return the entire string
-            e = s + 1;
-            while (*e != '\'') {
+        } else {
+            // Find end of the value
+            while (*e != ',' && *e != '}' && *e != ']' && *e != '\0') {
                 e++;
             }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        }
-        // Find end of the value
-        e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
-            e++;
-        }
-        len = MIN(255, e - s);
-        if (len > 0) {
-            strncpy(valueString, s, len);
-            valueString[len] = '\0';
-        } else {
-            valueString[0] = '\0';
         }
+        len = MIN(sizeof(valueStrings[0]) - 1, (size_t)(e - s));
+        memcpy(valueString, s, len);
+        valueString[len] = '\0';
         return valueString;
     }
     return NULL;
-- 
2.43.0


From 454bf4bee4b9e8df90ec0fe0b192c2efc3125fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 090/240] fix: keep the extraction of keys and values within
 the text

---
 source/RKFoundation.c | 18 ++++++++++++------
 source/RKMisc.c       | 27 ++++++++++++++++-----------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 0386d0a..d53a973 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2210,10 +2210,10 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     bool earlyReturn = false;
 
     char *str = (char *)malloc(L + 1);
-    char *key = (char *)malloc(RKMaximumStringLength);
-    char *obj = (char *)malloc(RKMaximumStringLength);
-    char *subKey = (char *)malloc(RKMaximumStringLength);
-    char *subObj = (char *)malloc(RKMaximumStringLength);
+    char *key = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *obj = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *subKey = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
+    char *subObj = (char *)malloc(MAX(L + 1, RKMaximumStringLength));
     if (str == NULL) {
         RKLog("Error allocating memory for str.\n");
         earlyReturn = true;
@@ -2262,14 +2262,20 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     bool found = false;
 
     ks = str + 1;
-    while (*ks != '\0' && *ks != '}') {
+    while (ks != NULL && *ks != '\0' && *ks != '}') {
         ks = RKExtractJSON(ks, &type, key, obj);
+        if (ks == NULL) {
+            break;
+        }
         if (type != RKJSONObjectTypeObject) {
             continue;
         }
         sks = obj + 1;
-        while (*sks != '\0' && *sks != '}') {
+        while (sks != NULL && *sks != '\0' && *sks != '}') {
             sks = RKExtractJSON(sks, &subType, subKey, subObj);
+            if (sks == NULL) {
+                break;
+            }
             if (strncmp("Enum", subKey, 4)) {
                 continue;
             }
diff --git a/source/RKMisc.c b/source/RKMisc.c
index 08af02e..204b3ba 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -108,6 +108,9 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*ks != '"' && *ks != '\0') {
         ks++;
     }
+    if (*ks == '\0') {
+        return NULL;
+    }
     ke = ++ks;
     while (*ke != '"' && *ke != '\0') {
         ke++;
@@ -115,9 +118,7 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     if (*ke == '\0') {
         fprintf(stderr, "Expected a close quote for keyword %s\n", ks == NULL ? "(NULL)" : ks);
         fprintf(stderr, "Original: %s\n", ks);
-        if (ke == NULL) {
-            return NULL;
-        }
+        return NULL;
     }
     // Now a keyword is in betwee ks & ke
     strncpy(key, ks, ke - ks);
@@ -127,6 +128,10 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     while (*os != ':' && *os != '\0') {
         os++;
     }
+    if (*os == '\0') {
+        fprintf(stderr, "Expected a value for keyword %s\n", key);
+        return NULL;
+    }
     // Space character(s) in between ':' and '{'
     os++;
     while (*os == ' ') {
@@ -136,10 +141,10 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is an object, recursively call myself.
         *type = RKJSONObjectTypeObject;
         oe = os + 1;
-        while (*oe != '}') {
+        while (*oe != '}' && *oe != '\0') {
             oe++;
         }
-        oe++;
+        oe += *oe != '\0';
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -149,10 +154,10 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is an array
         *type = RKJSONObjectTypeArray;
         oe = os + 1;
-        while (*oe != ']') {
+        while (*oe != ']' && *oe != '\0') {
             oe++;
         }
-        oe++;
+        oe += *oe != '\0';
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
         #if defined(DEBUG_HEAVY)
@@ -162,17 +167,17 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
         // This is a string
         *type = RKJSONObjectTypeString;
         oe = os + 1;
-        while (*oe != '"') {
+        while (*oe != '"' && *oe != '\0') {
             oe++;
         }
-        oe++;
+        oe += *oe != '\0';
         strncpy(value, os, oe - os);
         value[oe - os] = '\0';
     } else {
         // This is just a plain value
         *type = RKJSONObjectTypePlain;
-        oe = os + 1;
-        while (*oe != ',' && *oe != '}') {
+        oe = os;
+        while (*oe != ',' && *oe != '}' && *oe != '\0') {
             oe++;
         }
         strncpy(value, os, oe - os);
-- 
2.43.0


From f4ecd167e5cd54f831eb7396caf6a1af3f0d3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 091/240] fix: replace values of a key by shorter and longer
 ones, within the length of a health string

---
 source/RKMisc.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 204b3ba..9eaef23 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -288,16 +288,15 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
             fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an expected results from sprintf().\n");
             return;
         }
-        if (e - s < k) {
-            // Need to add another character
-            l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
+        l = strlen(e);
+        if ((size_t)(s - string) + k + l >= RKMaximumStringLength) {
+            fprintf(stderr, "RKReplaceAllValuesOfKey() has no room for another character.\n");
+            return;
         }
+        // Move the rest of the string, including the terminating character
+        memmove(s + k, e, l + 1);
         memcpy(s, valueString, k);
-        //strncpy(s, valueString, k);
-        //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
-        s = strstr(e, key);
+        s = strstr(s + k, key);
     }
 }
 
@@ -314,7 +313,7 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     if (s == NULL) {
         return;
     }
-    s += 6;
+    s += 4;
     //printf("Enum of %s found.  %s\n", key, s);
     while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
         s++;
@@ -336,12 +335,13 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
         fprintf(stderr, "RKReplaceEnumOfKey() encountered an expected results from sprintf().\n");
     }
     //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
-    if (e - s < k) {
-        // Need to add another character
-        l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
+    l = strlen(e);
+    if ((size_t)(s - string) + k + l >= RKMaximumStringLength) {
+        fprintf(stderr, "RKReplaceEnumOfKey() has no room for another character.\n");
+        return;
     }
+    // Move the rest of the string, including the terminating character
+    memmove(s + k, e, l + 1);
     memcpy(s, valueString, k);
 }
 
-- 
2.43.0


From f099c12b6856411fafc056c0b6cbacb8923d08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 092/240] fix: revise logical values that follow each other
 closely

---
 source/RKMisc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 9eaef23..f74f3ae 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -352,14 +352,14 @@ void RKReviseLogicalValues(char *string) {
         sprintf(token, "true");
         memmove(token + 4, token + 6, strlen(token + 6));
         memset(token + 4 + strlen(token + 6), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 6, "\"true\"");
+        token = strcasestr(token + 4, "\"true\"");
     }
     token = strcasestr(string, "\"false\"");
     while (token) {
         sprintf(token, "false");
         memmove(token + 5, token + 7, strlen(token + 7));
         memset(token + 5 + strlen(token + 7), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 7, "\"false\"");
+        token = strcasestr(token + 5, "\"false\"");
     }
 }
 
-- 
2.43.0


From 5d48b4461157de6f3eb6790d2f3fa73853e2dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 093/240] fix: end the scan of a JSON element at the end of the
 text, and an escape after its character

---
 source/RKMisc.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index f74f3ae..dcd4174 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -394,18 +394,18 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
     c = RKJSONSkipWhiteSpaces(c);
 
     while (c < end) {
+        bool escaped = slash;
+        slash = false;
         switch (*c) {
             case '\\':
-                slash = true;
+                slash = !escaped;
                 break;
             case '\'':
                 singleQuote = !singleQuote;
                 break;
             case '"':
-                if (!slash) {
+                if (!escaped) {
                     doubleQuote = !doubleQuote;
-                } else {
-                    slash = false;
                 }
                 break;
             case '{':
@@ -474,7 +474,9 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
             round == 0 &&
             square == 0 &&
             (*c == delimiter || *c == '}' || *c == ')' || *c == ']' || *c == '\0')) {
-            c++;
+            if (*c != '\0') {
+                c++;
+            }
             break;
         }
     }
-- 
2.43.0


From d024189f19b75fd70cd44c412ab338150c5a9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 094/240] fix: keep the next key and value of a health string
 within the string

---
 source/RKMisc.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index dcd4174..6e526db 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1481,14 +1481,26 @@ char *RKCountryFromPosition(const double latitude, const double longitude) {
 
 char *RKGetNextKeyValue(char *json, char *key, char *value) {
     char *c = json;
-    char *e = c + strlen(c);
+    char *e;
     char *ks, *ke, *vs, *ve;
+    if (key) {
+        *key = '\0';
+    }
+    if (json == NULL) {
+        if (value) {
+            *value = '\0';
+        }
+        return NULL;
+    }
+    e = c + strlen(c);
     // Forward until the next non-space character
     while (*c == ' ' && c < e) {
         c++;
     }
     if (c == e) {
-        *key = '\0';
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
     // Find the key
@@ -1504,9 +1516,15 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             break;
         default:
             ke = strchr(ks, ':');
-            ke--;
             break;
     }
+    if (ke == NULL) {
+        fprintf(stderr, "Incomplete string?\n");
+        if (value) {
+            *value = '\0';
+        }
+        return NULL;
+    }
     if (key) {
         memcpy(key, ks, ke - ks);
         key[ke - ks] = '\0';
@@ -1515,6 +1533,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
     c = strchr(ke, ':');
     if (c == NULL) {
         fprintf(stderr, "Incomplete string?\n");
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
     c++;
@@ -1523,7 +1544,9 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
         c++;
     }
     if (c == e) {
-        *value = '\0';
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
     // If this is bracketed piece, find the start and end
@@ -1542,15 +1565,19 @@ char *RKGetNextKeyValue(char *json, char *key, char *value) {
             ve = strchr(c, '\'');
             break;
         default:
-            ve = strchr(c, ',');
+            ve = strchr(vs, ',');
             if (ve == NULL) {
                 ve = e;
             }
             ve--;
             break;
     }
+    if (ve == NULL) {
+        ve = e - 1;
+    }
     if (value) {
-        memcpy(value, vs, ve - vs + 1);
+        // The value may replace the string that it is part of
+        memmove(value, vs, ve - vs + 1);
         value[ve - vs + 1] = '\0';
     }
     if (ve == e - 1) {
-- 
2.43.0


From ac98400dd3ec965eb2f4a83652b594e6621b59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 095/240] fix: merge columns that are empty, that do not end
 with a line break or that are wide

---
 source/RKMisc.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 6e526db..8f1fbc8 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1600,39 +1600,45 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
     char *plain;
     memset(format, ' ', indent);
     sprintf(format + indent, "%%s");
+    if (*ls == '\0') {
+        ls = NULL;
+    }
+    if (*rs == '\0') {
+        rs = NULL;
+    }
     //printf("%s--\n", right);
+    *text = '\0';
     while (ls != NULL || rs != NULL) {
-        if (ls != NULL && (le = strchr(ls, '\n')) != NULL) {
-            *le = '\0';
+        if (ls != NULL) {
+            le = strchr(ls, '\n');
+            if (le) {
+                *le = '\0';
+            }
             plain = RKStripEscapeSequence(ls);
-            n = (int)strlen(plain);
+            n = MIN(u, (int)strlen(plain));
             //printf("%s (%d) -> %s (%d)\n", ls, (int)(le - ls), plain, n);
             m += sprintf(text + m, format, ls);
             memset(text + m, ' ', u - n);
             m += (u - n);
-            ls = le + 1;
-            if (*ls == '\0') {
-                ls = NULL;
-            }
+            ls = le == NULL || *(le + 1) == '\0' ? NULL : le + 1;
         } else {
-            if (rs != NULL) {
-                memset(text + m, ' ', u + indent);
-                m += u + indent;
-            }
+            memset(text + m, ' ', u + indent);
+            m += u + indent;
         }
-        if (rs != NULL && (re = strchr(rs, '\n')) != NULL) {
-            *re = '\0';
+        if (rs != NULL) {
+            re = strchr(rs, '\n');
+            if (re) {
+                *re = '\0';
+            }
             plain = RKStripEscapeSequence(rs);
             n = (int)strlen(plain);
             w = MAX(w, n);
+            n = MIN(v, n);
             //printf("%s (%d) -> %s (%d) |%c|\n", rs, (int)(re - rs), plain, n, *(re + 1));
             m += sprintf(text + m, "%s", rs);
             memset(text + m, ' ', v - n);
             m += (v - n);
-            rs = re + 1;
-            if (*rs == '\0') {
-                rs = NULL;
-            }
+            rs = re == NULL || *(re + 1) == '\0' ? NULL : re + 1;
         } else {
             memset(text + m, ' ', v);
             m += v;
-- 
2.43.0


From 9c6d6022eb8c1a632b2317c07c7c0ec9c25f4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 096/240] fix: give the overview of a health string the room
 that the string needs

---
 source/RKRadar.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 7c67aae..23f7b26 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3574,18 +3574,22 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
 
     //static struct winsize terminalSize = {.ws_col = 0, .ws_row = 0};
 
-    char key[RKNameLength];
-    char value[RKStatusStringLength];
+    char key[RKMaximumStringLength];
+    char value[RKMaximumStringLength];
     char string[RKMaximumStringLength];
-    char dots[RKMaximumStringLength], labels[RKMaximumStringLength];
+    char dots[2 * RKMaximumStringLength], labels[2 * RKMaximumStringLength];
     char prefix[RKNameLength], posfix[RKNameLength];
-    char state[4];
+    char state[RKMaximumStringLength];
     char symbol[] = "o";
     RKStatusEnum u;
     bool isLabel;
 
+    dots[0] = '\0';
+    labels[0] = '\0';
+
     // Make a local copy for manipulation
-    strcpy(string, json);
+    strncpy(string, json, RKMaximumStringLength - 1);
+    string[RKMaximumStringLength - 1] = '\0';
 
     // Skip the very first '{'
     d = string;
@@ -3656,15 +3660,21 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
                 }
             }
             if (isLabel) {
-                e = value + strlen(value) - 1;
-                if ((*value == '"' && *e == '"') || (*value == '\'' && *e == '\'')) {
+                e = value + MAX(1, strlen(value)) - 1;
+                if (e > value && ((*value == '"' && *e == '"') || (*value == '\'' && *e == '\''))) {
                     *e = '\0';
                     s = value + 1;
                 } else {
                     s = value;
                 }
+                if (nl + MAX(22, strlen(key)) + strlen(prefix) + strlen(s) + strlen(posfix) + 3 > sizeof(labels)) {
+                    continue;
+                }
                 nl += sprintf(labels + nl, "%22s %s%s%s\n", key, prefix, s, posfix);
             } else {
+                if (nd + strlen(prefix) + strlen(symbol) + strlen(posfix) + strlen(key) + 3 > sizeof(dots)) {
+                    continue;
+                }
                 nd += sprintf(dots + nd, "%s%s%s %s\n", prefix, symbol, posfix, key);
             }
         }
@@ -3677,7 +3687,7 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     #endif
 
     if (flag & RKTextPreferencesDrawBackground) {
-        char temp[8196];
+        char temp[16 * RKMaximumStringLength];
         int w = RKMergeColumns(temp, dots, labels, 4);
         // Another indent at the end and the two border chars
         w += 4 + 2;
-- 
2.43.0


From 08725f0c2a0979c973148d99ea255c0be977ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 097/240] fix: strip escape sequences of each thread on its own
 and within the buffer

---
 source/RKMisc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 8f1fbc8..1cf61cc 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1081,20 +1081,21 @@ char *RKLastLine(const char *lines) {
 
 // Strip the tags \033[...[A-Z][a-z]
 char *RKStripEscapeSequence(const char *line) {
-    static char string[8192];
+    static __thread char string[8192];
     int n;
     char *e;
     char *d = string;
+    const char *end = string + sizeof(string) - 1;
     char *s = (char *)line;
     while (*s != '\0') {
         e = strchr(s, '\033');
         if (e == NULL || *(e + 1) != '[') {
-            n = (int)strlen(s);
+            n = (int)MIN(strlen(s), (size_t)(end - d));
             memcpy(d, s, n);
             d += n;
             break;
         }
-        n = (int)(e - s);
+        n = (int)MIN(e - s, end - d);
         if (n) {
             memcpy(d, s, n);
             d += n;
-- 
2.43.0


From 20064e9f58e00e640a6c4ae305b4342ddbf7241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 098/240] fix: describe payloads that are shorter than their
 head and tail

---
 source/RKMisc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 1cf61cc..baa6a7b 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1670,6 +1670,10 @@ char *RKBinaryString(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBinaryString(char *dst, void *src, const size_t count) {
+    if (count < 30) {
+        RKBinaryString(dst, src, count);
+        return;
+    }
     char *tail = RKBinaryString(dst, src, 25);
     RKBinaryString(tail + sprintf(tail, " ... "), src + count - 5, 5);
 }
@@ -1696,6 +1700,10 @@ char *RKBytesInHex(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBytesInHex(char *dst, void *src, const size_t count) {
+    if (count < 10) {
+        RKBytesInHex(dst, src, count);
+        return;
+    }
     char *dummy = RKBytesInHex(dst, src, 7);
     RKBytesInHex(dummy + sprintf(dummy, " ... "), src + count - 3, 3);
 }
-- 
2.43.0


From 1ed71980b48a006e58c6dc0c5a491ad62f894b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 099/240] fix: give each thread its own slots for the values of
 keys

---
 source/RKMisc.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index baa6a7b..ce775dc 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -198,20 +198,13 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
 //  - Cannot handle certain conditions within quoted strings
 //
 char *RKGetValueOfKey(const char *string, const char *key) {
-    static char valueStrings[8][RKMaximumStringLength];
-    static int k = 7;
-    static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
+    static __thread char valueStrings[8][RKMaximumStringLength];
+    static __thread int k = 7;
     if (string == NULL && key == NULL) {
-        #if defined(DEBUG_MUTEX_DESTROY)
-        fprintf(stderr, "RKGetValueOfKey: Destroying static mutex lock ...\n");
-        #endif
-        pthread_mutex_destroy(&lock);
         return NULL;
     }
-    pthread_mutex_lock(&lock);
     char *valueString = valueStrings[k];
     k = k == 7 ? 0 : k + 1;
-    pthread_mutex_unlock(&lock);
     char *s, *e;
     size_t len;
     char quotedKey[256];
-- 
2.43.0


From 2d2d0ff6ba164ee5422c6c560dd2f3deff67b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 100/240] fix: leave out the health of a node that does not fit
 in the consolidated health

---
 source/RKHealthEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..d36bfea 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -165,6 +165,11 @@ static void *healthConsolidator(void *_in) {
         for (j = 0; j < desc->healthNodeCount; j++) {
             n = indices[j];
             if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
+                // Leave room for the GPS override and the log time
+                if (i + strlen(engine->healthNodes[j].healths[n].string) + 2 * RKStatusStringLength >= RKMaximumStringLength) {
+                    RKLog("%s Warning. No room for the health of node %d.\n", engine->name, j);
+                    continue;
+                }
                 i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
-- 
2.43.0


From d41939ae03c4bcda3538c46caf84a267fc951fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 101/240] fix: append to the end of the consolidated health
 after its enums have changed in length

---
 source/RKHealthEngine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index d36bfea..f05f6c3 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -221,6 +221,7 @@ static void *healthConsolidator(void *_in) {
         if (isnan(heading) || (desc->initFlags & RKInitFlagIgnoreHeading) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "heading", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"Heading Override\":{\"Value\":true,\"Enum\":0}, "
@@ -245,6 +246,7 @@ static void *healthConsolidator(void *_in) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "latitude", RKStatusEnumNotWired);
             RKReplaceEnumOfKey(string, "longitude", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with latitude, longitude and heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"GPS Override\":{\"Value\":true,\"Enum\":0}, "
-- 
2.43.0


From 6f20da80e87650da29622c0769a28981fc530a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 102/240] fix: stop recording the health when the recorder is
 set not to record, and tell the file manager about the last file

---
 source/RKHealthLogger.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..6d637d2 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -88,8 +88,9 @@ static void *healthLogger(void *in) {
         timeStruct = gmtime(&unixTime);
         if (min != timeStruct->tm_min) {
             min = timeStruct->tm_min;
-            if (engine->record && engine->fid) {
+            if (engine->fid) {
                 fclose(engine->fid);
+                engine->fid = NULL;
                 if (engine->verbose) {
                     RKLog("%s %sRecorded%s %s\n",
                           engine->name,
@@ -122,7 +123,7 @@ static void *healthLogger(void *in) {
                 }
             }
         }
-        if (engine->fid) {
+        if (engine->record && engine->fid) {
             fprintf(engine->fid, "%s\n", health->string);
         }
 
@@ -142,6 +143,9 @@ static void *healthLogger(void *in) {
     if (engine->fid != NULL) {
         fclose(engine->fid);
         engine->fid = NULL;
+        if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeHealth);
+        }
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From f9b37fccb1247063b0a88a0d307011947a6df8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 103/240] fix: tell the time of a health log without sharing it
 with the other threads

---
 source/RKHealthLogger.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 6d637d2..2b96bf3 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -27,7 +27,7 @@ static void *healthLogger(void *in) {
     char filename[RKMaximumPathLength] = "";
 
 	time_t unixTime;
-	struct tm *timeStruct;
+	struct tm timeStruct;
 	int min = -1;
 
 	// Update the engine state
@@ -85,9 +85,9 @@ static void *healthLogger(void *in) {
         } else {
             unixTime = (time_t)atol(keyValue);
         }
-        timeStruct = gmtime(&unixTime);
-        if (min != timeStruct->tm_min) {
-            min = timeStruct->tm_min;
+        gmtime_r(&unixTime, &timeStruct);
+        if (min != timeStruct.tm_min) {
+            min = timeStruct.tm_min;
             if (engine->fid) {
                 fclose(engine->fid);
                 engine->fid = NULL;
@@ -112,9 +112,9 @@ static void *healthLogger(void *in) {
                 }
             }
             i = sprintf(filename, "%s%s%s/", desc->dataPath, desc->dataPath[0] == '\0' ? "" : "/", RKDataFolderHealth);
-            i += strftime(filename + i, 10, "%Y%m%d", gmtime(&unixTime));
+            i += strftime(filename + i, 10, "%Y%m%d", &timeStruct);
             i += sprintf(filename + i, "/%s-", desc->filePrefix);
-            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", gmtime(&unixTime));
+            strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", &timeStruct);
             if (engine->record) {
                 RKPreparePath(filename);
                 engine->fid = fopen(filename, "w");
-- 
2.43.0


From dcbedb9862c7f12d105ea813b6f2553ee9c9bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 104/240] fix: return no health for an invalid node

---
 source/RKRadar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 23f7b26..9f46bdc 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2795,6 +2795,10 @@ RKHealth *RKGetVacantHealth(RKRadar *radar, const RKHealthNode node) {
         //exit(EXIT_FAILURE);
         return NULL;
     }
+    if (node >= radar->desc.healthNodeCount) {
+        RKLog("Error. Invalid health node %d.\n", node);
+        return NULL;
+    }
     radar->healthNodes[node].active = true;
     uint32_t index = radar->healthNodes[node].index;
     RKHealth *health = &radar->healthNodes[node].healths[index];
-- 
2.43.0


From 9e982f72f27da6f892a382eed1b42ca915237531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 105/240] fix: keep the old health of a silent node in the
 health engine, not in the slot that the node may be filling

---
 source/RKHealthEngine.c | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index f05f6c3..fe60873 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -33,6 +33,11 @@ static void *healthConsolidator(void *_in) {
     uint32_t *indices = (uint32_t *)malloc(desc->healthNodeCount * sizeof(uint32_t));
     memset(indices, 0xFF, desc->healthNodeCount * sizeof(uint32_t));
 
+    // The latest reading of a node that has been silent, with all enum set to old
+    bool *old = (bool *)malloc(desc->healthNodeCount * sizeof(bool));
+    char *oldString = (char *)malloc(RKMaximumStringLength);
+    char *nodeString;
+
 	// Update the engine state
 	engine->state |= RKEngineStateWantActive;
 	engine->state ^= RKEngineStateActivating;
@@ -96,10 +101,11 @@ static void *healthConsolidator(void *_in) {
         engine->state |= RKEngineStateSleep2;
         // Wait until all the flags are ready (wait when any flag is still vacant)
         s = 0;
+        memset(old, 0, desc->healthNodeCount * sizeof(bool));
         while (engine->state & RKEngineStateWantActive) {
             allTrue = true;
             for (j = 0; j < desc->healthNodeCount; j++) {
-                if (engine->healthNodes[j].active) {
+                if (engine->healthNodes[j].active && !old[j]) {
                     allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady;
                 }
             }
@@ -107,21 +113,13 @@ static void *healthConsolidator(void *_in) {
                 break;
             } else {
                 usleep(100000);
-                if (++s == 10) {
+                if (++s % 10 == 0) {
                     // Waited too long
                     for (j = 1; j < desc->healthNodeCount; j++) {
-                        if (engine->healthNodes[j].active && engine->healthNodes[j].healths[indices[j]].flag != RKHealthFlagReady) {
+                        if (engine->healthNodes[j].active && !old[j] && engine->healthNodes[j].healths[indices[j]].flag != RKHealthFlagReady) {
                             RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, indices[j]);
-                            // This node has been disconnected, duplicate the latest reading, set all enum to old
-                            n = indices[j];
-                            RKHealth *h0 = &engine->healthNodes[j].healths[n];
-                            n = RKPreviousModuloS(n, desc->healthBufferDepth);
-                            RKHealth *h1 = &engine->healthNodes[j].healths[n];
-                            // Copy over the previous health to current health, set all enums to old
-                            h0->i += desc->healthBufferDepth;
-                            strcpy(h0->string, h1->string);
-                            RKReplaceAllValuesOfKey(h0->string, "Enum", RKStatusEnumOld);
-                            h0->flag = RKHealthFlagReady;
+                            // This node has been disconnected, use the latest reading with all enum set to old
+                            old[j] = true;
                         }
                     }
                     if (engine->verbose > 1) {
@@ -164,13 +162,27 @@ static void *healthConsolidator(void *_in) {
         i = sprintf(string, "{");
         for (j = 0; j < desc->healthNodeCount; j++) {
             n = indices[j];
-            if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
+            nodeString = engine->healthNodes[j].healths[n].string;
+            if (engine->healthNodes[j].active && old[j] && engine->healthNodes[j].healths[n].flag != RKHealthFlagReady) {
+                // Use the latest reading that is complete, set all enums to old
+                nodeString = oldString;
+                *nodeString = '\0';
+                for (s = 0; s < 2; s++) {
+                    n = RKPreviousModuloS(n, desc->healthBufferDepth);
+                    if (engine->healthNodes[j].healths[n].flag & RKHealthFlagReady) {
+                        strcpy(nodeString, engine->healthNodes[j].healths[n].string);
+                        RKReplaceAllValuesOfKey(nodeString, "Enum", RKStatusEnumOld);
+                        break;
+                    }
+                }
+            }
+            if (engine->healthNodes[j].active && strlen(nodeString) > 6) {   // {"k":0} is at least 7 chars
                 // Leave room for the GPS override and the log time
-                if (i + strlen(engine->healthNodes[j].healths[n].string) + 2 * RKStatusStringLength >= RKMaximumStringLength) {
+                if (i + strlen(nodeString) + 2 * RKStatusStringLength >= RKMaximumStringLength) {
                     RKLog("%s Warning. No room for the health of node %d.\n", engine->name, j);
                     continue;
                 }
-                i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
+                i += sprintf(string + i, "%s", nodeString + 1);                                            // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
                 i += sprintf(string + i, ", ");                                                            // Get ready to concatenante
@@ -294,6 +306,8 @@ static void *healthConsolidator(void *_in) {
     }
 
     free(indices);
+    free(old);
+    free(oldString);
 
     engine->state ^= RKEngineStateActive;
     return NULL;
-- 
2.43.0


From a3dea4448b601546182042602a994b104acf4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 106/240] fix: keep the maximum value of a product description

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index d53a973..64460b0 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2380,7 +2380,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     }
     keyString = RKGetValueOfKey(inputString, "maximumValue");
     if (keyString) {
-        desc->mininimumValue = (RKFloat)atof(keyString);
+        desc->maximumValue = (RKFloat)atof(keyString);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From ce8c9ccb23128eef8d58eca39b51c9dd6bb5c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 107/240] fix: end a quoted string at the end of the text

---
 source/RKFoundation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 64460b0..1d4fc82 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2105,16 +2105,17 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
-        s = e + 1;
+        s = *e == '\0' ? e : e + 1;
         // Get the next string
         string = va_arg(args, char *);
     }
+    va_end(args);
 }
 
 void RKMakeJSONStringFromControls(char *string, RKControl *controls, uint32_t count) {
-- 
2.43.0


From 08c7a935cb152a00d9ec8c7155f0982caf7c1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 108/240] fix: refuse a numeric array whose brackets are in the
 wrong order

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 1d4fc82..7bbefb8 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2073,7 +2073,7 @@ size_t RKParseNumericArray(void *valueStorage, RKValueType type, const size_t si
     if ((s = strchr(valueString, '[')) == NULL) {
         return RKParseCommaDelimitedValues(valueStorage, type, size, valueString);
     }
-    if ((e = strchr(valueString, ']')) == NULL) {
+    if ((e = strchr(s, ']')) == NULL) {
         fprintf(stderr, "Expected a close bracket for an array that begins with '['.\n");
         return 0;
     }
-- 
2.43.0


From 05ce81f92f78e3724975f4f05117abd79c3be329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 109/240] fix: read brackets and apostrophes inside a quoted
 string as text when a JSON element is scanned

---
 source/RKMisc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index ce775dc..a8b1358 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -389,7 +389,8 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
     while (c < end) {
         bool escaped = slash;
         slash = false;
-        switch (*c) {
+        // Inside a double-quoted string, only an escape and the closing quote have meanings
+        switch (doubleQuote && *c != '\\' && *c != '"' ? ' ' : *c) {
             case '\\':
                 slash = !escaped;
                 break;
-- 
2.43.0


From a03a415d838d9fde599c8c1022a15da3325078e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 110/240] fix: make room for the colors of elements that have
 no value, and for the brackets that are closed, in a pretty string

---
 source/RKFoundation.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 7bbefb8..7563d61 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1017,15 +1017,14 @@ size_t RKPrettyStringSizeEstimate(const char *source) {
     char *e = c + strlen(source);
     size_t s = (size_t)(e - c + 1);
     // Each color change uses up to 14 B for \033[38;5;123m (9-11 color dependent) and \033[m (3)
-    int k = 0;
+    // An element, with or without a value, shows up to three (key, equal sign & value), plus the spaces
+    int k = 3;
     do {
-        if (*c == ':') {
+        if (*c == ':' || *c == ',' || *c == '[' || *c == ']' || *c == '{' || *c == '}' || *c == '(' || *c == ')') {
             k += 3;
-        } else if (*c == ','  || *c == ']' || *c == '}') {
-            k++;
         }
     } while (c++ < e);
-    s += k * 14;
+    s += k * 16;
     return s;
 }
 
-- 
2.43.0


From c289f45758921f1462f7dd1687d8e72af1f08c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 111/240] fix: plan PPI scans that come without an azimuth at
 the documented default

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..91e73f7 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -182,7 +182,7 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         response = engine->response;
     }
 
-    if (n < 2) {
+    if (n < 1) {
         sprintf(response, "NAK. Ill-defined PPI array.   n = %d" RKEOL, n);
         return RKResultIncompleteScanDescription;
     }
-- 
2.43.0


From 2ef7f9354985cc34e83757ba633652c15f6ef8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 112/240] fix: take an empty steer command as no command

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 91e73f7..c921b93 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -870,7 +870,7 @@ RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s != 1) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
-- 
2.43.0


From b8a1fa3252764384cda2cf1018a42ddf1b19ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 113/240] fix: refuse a volume command that has no sweeps

---
 source/RKSteerEngine.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index c921b93..cd5fe16 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1008,20 +1008,19 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         // vol p 2 45 18/p 4 45 18/p 6 45 18/p 8 45 18/p 10 45 18/p 12 45 18 - PPI set like the pp example
         int k = 0;
         char *saved;
-        char *token = strchr(string, ' ');
-        do {
-            token++;
-        } while (*token == ' ' && k++ < 8);
-        if (*token == ' ') {
-            RKLog("%s Unxpected vol command string\n", engine->name);
+        const char *sweeps = string + strspn(string, " \t");
+        sweeps += strcspn(sweeps, " \t");
+        sweeps += strspn(sweeps, " \t");
+        if (*sweeps == '\0') {
+            sprintf(response, "NAK. Ill-defined volume. No sweeps." RKEOL);
             return RKResultFailedToSetVCP;
         }
-        strncpy(engine->scanString, token, RKMaximumStringLength - 1);
+        strncpy(engine->scanString, sweeps, RKMaximumStringLength - 1);
 
         RKScanMode mode = RKScanModeNone;
 
         k = 0;
-        token = strtok_r(engine->scanString, "/", &saved);
+        char *token = strtok_r(engine->scanString, "/", &saved);
         while (token != NULL && k++ < 100) {
             // parse in the usual way
             const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
-- 
2.43.0


From 6f88941514a2790caab2d28bf4715a2267f82701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 114/240] fix: set every sweep of a volume up from the
 beginning

---
 source/RKSteerEngine.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index cd5fe16..02bbd2b 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -118,6 +118,7 @@ void RKSteerEngineNextHitter(RKSteerEngine *engine) {
     memcpy(V->onDeckScans, V->inTheHoleScans, V->inTheHoleCount * sizeof(RKScanPath));
     V->sweepCount = V->onDeckCount;
     V->onDeckCount = V->inTheHoleCount;
+    V->progress = RKScanProgressNone;
     V->i = 0;
     V->active = true;
 }
@@ -841,7 +842,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
 
     // Sweep ended, go to the next sweep
     if (V->progress & RKScanProgressEnd) {
-        V->progress ^= RKScanProgressEnd;
+        V->progress = RKScanProgressNone;
         V->i = RKNextModuloS(V->i, V->sweepCount);
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
@@ -852,10 +853,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 if (V->sweepCount == 1 && V->batterScans[0].mode == RKScanModePoint) {
                     RKSteerEngineClearSweeps(engine);
                 }
-                V->active = false;
+                RKSteerEngineStopSweeps(engine);
             }
         }
-        V->progress |= RKScanProgressSetup;
+        if (V->active && V->sweepCount == 0) {
+            // A once-only volume that has no lineup
+            RKLog("%s VCP stops.\n", engine->name);
+            RKSteerEngineStopSweeps(engine);
+        }
     }
 
     engine->actionIndex = RKNextModuloS(engine->actionIndex, RKPedestalActionBufferDepth);
-- 
2.43.0


From b524944f3bc451824961b7d85cdaaa4c0ac8eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 115/240] fix: stop both axes when a volume stops, whether or
 not they have started to move

---
 source/RKSteerEngine.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 02bbd2b..0542ffa 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -539,18 +539,12 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     if (V->active == false || V->sweepCount == 0) {
         if (V->progress & RKScanProgressStopPedestal) {
             RKLog("%s Stopping pedestal ...\n", engine->name);
-            if (fabs(pos->elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-                a++;
-            }
-            if (fabs(pos->azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-            }
-            V->progress ^= RKScanProgressStopPedestal;
+            // An axis that was just told to slew may not have accelerated so both are told
+            action->mode[0] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+            action->value[0] = 0.0f;
+            action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+            action->value[1] = 0.0f;
+            V->tic = 0;
             V->progress = RKScanProgressNone;
         }
 
-- 
2.43.0


From 6870e4a9c57ef2d60a5e8c772307221c771d6126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 116/240] fix: keep the other axis still when an RHI or a
 sector starts

---
 source/RKSteerEngine.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 0542ffa..1351d66 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -620,8 +620,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                    // Replace the setup actions, if any: start the sweep, keep the other axis still
+                    memset(action, 0, sizeof(RKScanAction));
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisElevation;
                     action->value[0] = scan->elevationSlew;
+                    if (fabsf(pos->azimuthVelocityDegreesPerSecond) >= RKPedestalVelocityTolerance) {
+                        action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+                        action->value[1] = 0.0f;
+                    }
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for RHI sweep %d - AZ %.2f° @ crossover EL %.2f°\n", engine->name,
@@ -707,8 +713,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                     V->tic = 0;
                 }
                 if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                    // Replace the setup actions, if any: start the sweep, keep the other axis still
+                    memset(action, 0, sizeof(RKScanAction));
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
                     action->value[0] = scan->azimuthSlew;
+                    if (fabsf(pos->elevationVelocityDegreesPerSecond) >= RKPedestalVelocityTolerance) {
+                        action->mode[1] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+                        action->value[1] = 0.0f;
+                    }
                     V->tic = 0;
                     if (verbose) {
                         RKLog("%s Info. Ready for SEC sweep %d - EL %.1f° @ crossover AZ %.1f°\n", engine->name,
-- 
2.43.0


From 3c852baf7309ea0d8df7caec28ff961eaad9697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 117/240] fix: keep the summary of a long volume within the
 buffers it is put in

---
 headers/RadarKit/RKSteerEngine.h |  2 +-
 source/RKSteerEngine.c           | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index fa31b0a..563573c 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -147,7 +147,7 @@ struct rk_position_steer_engine {
     int                    actionIndex;
     char                   scanString[RKMaximumStringLength];
     char                   response[RKMaximumStringLength];
-    char                   dump[RKMaximumStringLength];
+    char                   dump[2 * RKMaximumStringLength];
     pthread_t              threadId;
 
     // Status / health
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1351d66..7892669 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1161,7 +1161,10 @@ static char *scanModeString(const RKScanMode mode) {
     return "NAN";
 }
 
-static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int count, const RKScanHitter linetag) {
+// A line of up to four values of up to 42 characters, and the line that takes the place of those that do not fit
+#define RKSteerEngineSummaryLineLength   320
+
+static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const char *end, const int count, const RKScanHitter linetag) {
     size_t k = 0;
     char prefix[8];
     switch (linetag){
@@ -1192,7 +1195,7 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
         // int w2 = RKDigitWidth(scanPaths[i].azimuthSlew, 1);
         // printf("w1 = %d   w2 = %d\n", w1, w2);
         es = MAX(es, RKDigitWidth(scanPaths[i].elevationStart, n));
-        ee = MAX(es, RKDigitWidth(scanPaths[i].elevationEnd, n));
+        ee = MAX(ee, RKDigitWidth(scanPaths[i].elevationEnd, n));
         ev = MAX(ev, RKDigitWidth(scanPaths[i].elevationSlew, n));
         as = MAX(as, RKDigitWidth(scanPaths[i].azimuthStart, n));
         ae = MAX(ae, RKDigitWidth(scanPaths[i].azimuthEnd, n));
@@ -1201,6 +1204,10 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
     // Second pass, actually print it out using the consitent column width
     for (int i = 0; i < count; i++) {
+        if (string + k + RKSteerEngineSummaryLineLength > end) {
+            k += sprintf(string + k, "%-7s ... %d in total\n", prefix, count);
+            break;
+        }
         k += sprintf(string + k, "%-7s %d : %s%s%s",
                      prefix,
                      i,
@@ -1251,12 +1258,14 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
 size_t RKSteerEngineScanSummary(RKSteerEngine *engine, char *string) {
     RKScanObject *V = &engine->vcpHandle;
-    size_t s = makeSweepMessage(V->batterScans, string, V->sweepCount, RKScanAtBat);
+    // The text goes to a buffer of RKMaximumStringLength with other text, there is always room for a line of each part
+    const char *end = string + RKMaximumStringLength - 512 - 2 * RKSteerEngineSummaryLineLength;
+    size_t s = makeSweepMessage(V->batterScans, string, end, V->sweepCount, RKScanAtBat);
     if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, RKMaximumScanCount * sizeof(RKScanPath))) {
-        s += makeSweepMessage(V->onDeckScans, string + s, V->onDeckCount, RKScanPinch);
+        s += makeSweepMessage(V->onDeckScans, string + s, end, V->onDeckCount, RKScanPinch);
     }
     if (V->option & RKScanOptionRepeat) {
-        s += makeSweepMessage(V->inTheHoleScans, string + s, V->inTheHoleCount, RKScanLine);
+        s += makeSweepMessage(V->inTheHoleScans, string + s, end, V->inTheHoleCount, RKScanLine);
     }
     if (V->sweepCount == 0 && V->onDeckCount == 0 && V->inTheHoleCount == 0) {
         s = sprintf(string, "(empty)\n");
-- 
2.43.0


From 46ded86acff2a65a1d49b3c9e64812eddab07440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 118/240] fix: give values below one the width they take

---
 headers/RadarKit/RKTypes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index e4cc08c..b7d3075 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -158,7 +158,7 @@
 #define RKColorDutyCycle(x)  (x > RKDutyCyleRedThreshold ? RKBaseRedColor : (x > RKDutyCyleOrangeThreshold ? RKBaseYellowColor : RKBaseGreenColor))
 #define RKColorLag(x)        (x > RKLagRedThreshold      ? RKBaseRedColor : (x > RKLagOrangeThreshold      ? RKBaseYellowColor : RKBaseGreenColor))
 
-#define RKDigitWidth(v, n)   (int)(floorf(log10f(fabsf(v))) + ((v) < 0) + ((n) ? ((n) + 2) : 1))
+#define RKDigitWidth(v, n)   (int)(floorf(log10f(fmaxf(1.0f, fabsf(v)))) + ((v) < 0) + ((n) ? ((n) + 2) : 1))
 
 #define ITALIC(x)            "\033[3m" x "\033[23m"
 #define UNDERLINE(x)         "\033[4m" x "\033[24m"
-- 
2.43.0


From 56f1b571f34fb38c5f00954446f5d113f1733658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 119/240] fix: quote no more of a refused steer command than
 the response can take

---
 source/RKSteerEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 7892669..5f9068d 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -970,7 +970,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             return RKResultSuccess;
             break;
         case RKSteerCommandNone:
-            sprintf(response, "NAK. Command '%s' not understood. Ask my father." RKEOL, string);
+            sprintf(response, "NAK. Command '%.1024s' not understood. Ask my father." RKEOL, string);
             return RKResultFailedToExecuteCommand;
             break;
         default:
@@ -985,7 +985,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             RKSteerEngineSetScanRepeat(engine, true);
         }
     } else {
-        sprintf(response, "NAK. Command '%s' not understood. Ask my father." RKEOL, string);
+        sprintf(response, "NAK. Command '%.1024s' not understood. Ask my father." RKEOL, string);
         RKLog("%s Non-motion commands should not be here.\n", engine->name);
         return RKResultFailedToExecuteCommand;
     }
-- 
2.43.0


From 1c7228676f9f3e7bed6dd0f2fd60d74e1f58baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 120/240] fix: take lists of elevations and azimuths of any
 length that a command can have

---
 source/RKSteerEngine.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 5f9068d..6981866 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -174,8 +174,9 @@ RKScanPath RKSteerEngineMakeScanPath(RKScanMode mode,
 }
 
 int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
-    char args[4][256] = {"", "", "", ""};
-    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
+    char list[RKMaximumStringLength] = "";
+    char args[2][256] = {"", ""};
+    const int n = sscanf(string, "%*s %4095s %255s %255s", list, args[0], args[1]);
 
     float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
 
@@ -188,8 +189,8 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         return RKResultIncompleteScanDescription;
     }
 
-    char *elevations = args[0];
-    char *azimuth = args[1];
+    char *elevations = list;
+    char *azimuth = args[0];
 
     if (n > 1) {
         azimuthStart = atof(azimuth);
@@ -198,14 +199,14 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
     }
     azimuthEnd = azimuthStart;
     if (n > 2) {
-        rate = atof(args[2]);
+        rate = atof(args[1]);
     } else {
         rate = RKDefaultScanSpeed;
     }
 
-    int k = 0;
-    char *token = strtok(elevations, ",");
-    while (token != NULL && k++ < 100) {
+    char *saved;
+    char *token = strtok_r(elevations, ",", &saved);
+    while (token != NULL) {
         const int m = sscanf(token, "%f", &elevationStart);
         if (m == 0) {
             sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
@@ -220,15 +221,16 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         } else{
             RKSteerEngineAddLineupSweep(engine, scan);
         }
-        token = strtok(NULL, ",");
+        token = strtok_r(NULL, ",", &saved);
     }
 
     return RKResultSuccess;
 }
 
 int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
-    char args[4][256] = {"", "", "", ""};
-    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
+    char list[RKMaximumStringLength] = "";
+    char args[2][256] = {"", ""};
+    const int n = sscanf(string, "%*s %255s %4095s %255s", args[0], list, args[1]);
 
     float azimuthStart, elevationStart, elevationEnd, rate;
 
@@ -242,10 +244,10 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
     }
 
     char *elevations = args[0];
-    char *azimuths = args[1];
+    char *azimuths = list;
 
     if (n > 2) {
-        rate = atof(args[2]);
+        rate = atof(args[1]);
     } else {
         rate = RKDefaultScanSpeed;
     }
@@ -258,9 +260,9 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
 
     bool flip = false;
 
-    int k = 0;
-    char *token = strtok(azimuths, ",");
-    while (token != NULL && k++ < 180) {
+    char *saved;
+    char *token = strtok_r(azimuths, ",", &saved);
+    while (token != NULL) {
         const int o = sscanf(token, "%f", &azimuthStart);
         if (o == 0) {
             sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, m);
@@ -277,7 +279,7 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
         } else{
             RKSteerEngineAddLineupSweep(engine, scan);
         }
-        token = strtok(NULL, ",");
+        token = strtok_r(NULL, ",", &saved);
         flip = !flip;
     }
 
-- 
2.43.0


From c45bf857bb07f28331513796bb0a9af2c823e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 121/240] fix: refuse a volume with more sweeps than there is
 room for, or with values that are not finite

---
 source/RKSteerEngine.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 6981866..2e70611 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -151,7 +151,7 @@ int RKSteerEngineAddPinchSweep(RKSteerEngine *engine, const RKScanPath scan) {
     if (V->onDeckCount < RKMaximumScanCount) {
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->onDeckScans = %d\n", engine->name, V->onDeckScans);
+        RKLog("%s Error. Cannot add more scans.  V->onDeckCount = %d\n", engine->name, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
@@ -173,11 +173,25 @@ RKScanPath RKSteerEngineMakeScanPath(RKScanMode mode,
     return sweep;
 }
 
+static int addSweep(RKSteerEngine *engine, const RKScanPath scan, const bool once, char *response) {
+    if (!isfinite(scan.elevationStart) || !isfinite(scan.elevationEnd) || !isfinite(scan.elevationSlew) ||
+        !isfinite(scan.azimuthStart) || !isfinite(scan.azimuthEnd) || !isfinite(scan.azimuthSlew)) {
+        sprintf(response, "NAK. Sweeps must be described by finite values." RKEOL);
+        return RKResultIncompleteScanDescription;
+    }
+    const int result = once ? RKSteerEngineAddPinchSweep(engine, scan) : RKSteerEngineAddLineupSweep(engine, scan);
+    if (result != RKResultSuccess) {
+        sprintf(response, "NAK. No more than %d sweeps in a volume." RKEOL, RKMaximumScanCount);
+    }
+    return result;
+}
+
 int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
     char list[RKMaximumStringLength] = "";
     char args[2][256] = {"", ""};
     const int n = sscanf(string, "%*s %4095s %255s %255s", list, args[0], args[1]);
 
+    int result;
     float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
 
     if (response == NULL) {
@@ -216,10 +230,9 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
 
         RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePPI, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+        result = addSweep(engine, scan, once, response);
+        if (result != RKResultSuccess) {
+            return result;
         }
         token = strtok_r(NULL, ",", &saved);
     }
@@ -232,6 +245,7 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
     char args[2][256] = {"", ""};
     const int n = sscanf(string, "%*s %255s %4095s %255s", args[0], list, args[1]);
 
+    int result;
     float azimuthStart, elevationStart, elevationEnd, rate;
 
     if (response == NULL) {
@@ -274,10 +288,9 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
             RKSteerEngineMakeScanPath(RKScanModeRHI, elevationEnd, elevationStart, azimuthStart, 0, -rate) :
             RKSteerEngineMakeScanPath(RKScanModeRHI, elevationStart, elevationEnd, azimuthStart, 0, rate);
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+        result = addSweep(engine, scan, once, response);
+        if (result != RKResultSuccess) {
+            return result;
         }
         token = strtok_r(NULL, ",", &saved);
         flip = !flip;
@@ -1019,7 +1032,6 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     } else if (motion == RKSteerCommandVolume) {
 
         // vol p 2 45 18/p 4 45 18/p 6 45 18/p 8 45 18/p 10 45 18/p 12 45 18 - PPI set like the pp example
-        int k = 0;
         char *saved;
         const char *sweeps = string + strspn(string, " \t");
         sweeps += strcspn(sweeps, " \t");
@@ -1032,9 +1044,8 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
 
         RKScanMode mode = RKScanModeNone;
 
-        k = 0;
         char *token = strtok_r(engine->scanString, "/", &saved);
-        while (token != NULL && k++ < 100) {
+        while (token != NULL && valid) {
             // parse in the usual way
             const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
             if (m < 2) {
@@ -1076,11 +1087,8 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
 
                 RKScanPath scan = RKSteerEngineMakeScanPath(mode, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
-                if (onlyOnce) {
-                    RKSteerEngineAddPinchSweep(engine, scan);
-                } else {
-                    RKSteerEngineAddLineupSweep(engine, scan);
-                }
+                result = addSweep(engine, scan, onlyOnce, response);
+                valid = result == RKResultSuccess;
             } else if (!strcmp("pp", symbol)) {
                 result = RKSteerEngineAddPPISet(engine, token, onlyOnce, response);
                 valid = result == RKResultSuccess;
-- 
2.43.0


From 819f494f66d674cf021f3b939dea3a1ef70a7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 122/240] fix: answer every component of a volume that is not
 understood, and refuse the volume

---
 source/RKSteerEngine.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 2e70611..79ca9bf 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1047,7 +1047,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         char *token = strtok_r(engine->scanString, "/", &saved);
         while (token != NULL && valid) {
             // parse in the usual way
-            const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
+            const int m = sscanf(token, "%3s", symbol) == 1 ? sscanf(token, "%*s %255s %255s %255s", args[0], args[1], args[2]) + 1 : 0;
             if (m < 2) {
                 sprintf(response, "NAK. Ill-defined volume component.   m = %d" RKEOL, m);
                 valid = false;
@@ -1064,6 +1064,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                     mode = RKScanModeSpeedDown;
                 } else {
                     RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
+                    sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                     valid = false;
                     break;
                 }
@@ -1095,8 +1096,8 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             } else if (!strcmp("rr", symbol)) {
                 result = RKSteerEngineAddRHISet(engine, token, onlyOnce, response);
                 valid = result == RKResultSuccess;
-            } else if (!strcmp("ss", symbol)) {
-                result = RKResultFailedToExecuteCommand;
+            } else {
+                sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                 valid = false;
             }
             token = strtok_r(NULL, "/", &saved);
-- 
2.43.0


From 70c719b1e8914a5624c6e0ac2dd3a18fdc5b02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 123/240] fix: leave the volumes as they are when a steer
 command is refused

---
 source/RKSteerEngine.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 79ca9bf..d5d5f68 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -936,15 +936,11 @@ bool RKSteerEngineIsExecutable(const char *string) {
     return (RKSteerCommandFromString(string) & RKSteerCommandInstructionMask) != RKSteerCommandNone;
 }
 
-int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
+static int executeString(RKSteerEngine *engine, const char *string, char *response) {
     const RKSteerCommand command = RKSteerCommandFromString(string);
     const bool immediatelyDo = RKSteerCommandIsImmediate(command);
     const bool onlyOnce = RKSteerCommandIsOnce(command);
 
-    if (response == NULL) {
-        response = engine->response;
-    }
-
     // RKLog("%s Interpreted %s\n", engine->name, RKVariableInString("command", &command, RKValueTypeInt32InHex));
 
     int s;
@@ -1156,6 +1152,18 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     return RKResultSuccess;
 }
 
+int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
+    if (response == NULL) {
+        response = engine->response;
+    }
+    const RKScanObject before = engine->vcpHandle;
+    const int result = executeString(engine, string, response);
+    if (result != RKResultSuccess) {
+        engine->vcpHandle = before;
+    }
+    return result;
+}
+
 static char *scanModeString(const RKScanMode mode) {
     switch (mode) {
         case RKScanModePPI:
-- 
2.43.0


From 901808b1806790500ddf789fb4a8df5baffd0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 124/240] fix: keep steer commands and steer actions from
 running into each other

---
 headers/RadarKit/RKSteerEngine.h |  1 +
 source/RKSteerEngine.c           | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index 563573c..20ce2cb 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -149,6 +149,7 @@ struct rk_position_steer_engine {
     char                   response[RKMaximumStringLength];
     char                   dump[2 * RKMaximumStringLength];
     pthread_t              threadId;
+    pthread_mutex_t        lock;
 
     // Status / health
     size_t                 memoryUsage;
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index d5d5f68..68e906e 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -408,11 +408,13 @@ RKSteerEngine *RKSteerEngineInit(void) {
     engine->vcpHandle.active = false;
     engine->vcpHandle.toc = 3;
     engine->memoryUsage = sizeof(RKSteerEngine);
+    pthread_mutex_init(&engine->lock, NULL);
     engine->state = RKEngineStateAllocated;
     return engine;
 }
 
 void RKSteerEngineFree(RKSteerEngine *engine) {
+    pthread_mutex_destroy(&engine->lock);
     free(engine);
 }
 
@@ -532,7 +534,7 @@ void RKSteerEngineUpdatePositionFlags(RKSteerEngine *engine, RKPosition *positio
     }
 }
 
-RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
     RKScanAction *action = &engine->actions[engine->actionIndex];
     memset(action, 0, sizeof(RKScanAction));
 
@@ -892,6 +894,13 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     return action;
 }
 
+RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+    pthread_mutex_lock(&engine->lock);
+    RKScanAction *action = getAction(engine, pos);
+    pthread_mutex_unlock(&engine->lock);
+    return action;
+}
+
 RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
@@ -1156,11 +1165,13 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     if (response == NULL) {
         response = engine->response;
     }
+    pthread_mutex_lock(&engine->lock);
     const RKScanObject before = engine->vcpHandle;
     const int result = executeString(engine, string, response);
     if (result != RKResultSuccess) {
         engine->vcpHandle = before;
     }
+    pthread_mutex_unlock(&engine->lock);
     return result;
 }
 
-- 
2.43.0


From f36cdc5b74277822abd76e51bd2ca53d9a6970c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 125/240] fix: follow the positions with the depth of the
 position buffer in the steer engine

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 68e906e..d084118 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -385,7 +385,7 @@ static void *steerer(void *_in) {
         }
 
         // Update k to catch up for the next watch
-        k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+        k = RKNextModuloS(k, engine->radarDescription->positionBufferDepth);
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From c9520a969eb3b568639357ba7b2ba199ec5de120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 126/240] fix: set the sweep up again when a volume command
 resumes a stopped volume

---
 source/RKSteerEngine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index d084118..e8f4372 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -92,6 +92,9 @@ void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
 }
 
 void RKSteerEngineStartSweeps(RKSteerEngine *engine) {
+    if (!engine->vcpHandle.active) {
+        engine->vcpHandle.progress = RKScanProgressNone;
+    }
     engine->vcpHandle.active = true;
 }
 
-- 
2.43.0


From b3a731306a26a1ee5a350070fb90b6e14a69e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 127/240] fix: stop the pedestal when there is no next volume

---
 source/RKSteerEngine.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index e8f4372..4b79709 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -123,7 +123,11 @@ void RKSteerEngineNextHitter(RKSteerEngine *engine) {
     V->onDeckCount = V->inTheHoleCount;
     V->progress = RKScanProgressNone;
     V->i = 0;
-    V->active = true;
+    if (V->sweepCount) {
+        V->active = true;
+    } else {
+        RKSteerEngineStopSweeps(engine);
+    }
 }
 
 void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
@@ -873,7 +877,7 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
                 RKSteerEngineNextHitter(engine);
-                RKLog("%s VCP repeats.\n", engine->name);
+                RKLog("%s VCP %s.\n", engine->name, V->active ? "repeats" : "stops");
             } else {
                 RKLog("%s VCP stops.\n", engine->name);
                 if (V->sweepCount == 1 && V->batterScans[0].mode == RKScanModePoint) {
@@ -882,11 +886,6 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
                 RKSteerEngineStopSweeps(engine);
             }
         }
-        if (V->active && V->sweepCount == 0) {
-            // A once-only volume that has no lineup
-            RKLog("%s VCP stops.\n", engine->name);
-            RKSteerEngineStopSweeps(engine);
-        }
     }
 
     engine->actionIndex = RKNextModuloS(engine->actionIndex, RKPedestalActionBufferDepth);
-- 
2.43.0


From b16df2afa67704288fbd8cfc3690eb9d5efa95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 128/240] fix: count the positions of a PPI from its start so
 that it does not end where the previous sweep did

---
 source/RKSteerEngine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 4b79709..3ba4e50 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -605,6 +605,7 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
 
     if (V->progress == RKScanProgressNone) {
         V->progress = RKScanProgressSetup;
+        V->tic = MIN(V->tic, V->toc);
         switch (scan->mode) {
             case RKScanModePPI:
                 V->progress |= RKScanProgressMiddle;
-- 
2.43.0


From 2b12de0f3a4edbe29935f7edb9f53e0c8c3f3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 129/240] fix: set the pace of the steer actions under the lock

---
 source/RKSteerEngine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 3ba4e50..af8609b 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -370,7 +370,9 @@ static void *steerer(void *_in) {
             rate = (float)(engine->radarDescription->positionBufferDepth / 8) / theta;
             s = (int)ceilf(RKPedestalActionPeriod * rate);
             if (engine->vcpHandle.toc != s) {
+                pthread_mutex_lock(&engine->lock);
                 engine->vcpHandle.toc = s;
+                pthread_mutex_unlock(&engine->lock);
                 RKLog("%s Position rate = %.1f Hz   toc -> %d\n", engine->name, rate, s);
             }
         }
-- 
2.43.0


From d9912acf1a2272dac4e23bc5bb7f3819dcaa3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 130/240] fix: send each payload on from where a partial send
 ended, and give up only when nothing moves

---
 source/RKNetwork.c | 26 ++++++++++++++++----------
 source/RKServer.c  | 27 ++++++++++++++++-----------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..2e3a030 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -24,6 +24,7 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     ssize_t   sentSize = 0;
 
     int       timeout_count = 0;
+    ssize_t   r = 0;
 
     va_start(arg, sd);
 
@@ -32,19 +33,24 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        timeout_count = 0;
+        while (totalSentSize < payloadSize && r == 0) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
-                usleep(10000);
-            } else if (sentSize < 0) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
                 RKLog("RKNetworkSendPackets Unable to send()\n");
-                return -RKResultIncompleteSend;
+                r = -RKResultIncompleteSend;
+            } else if (timeout_count++ >= RKNetworkTimeoutSeconds / 10) {
+                r = -RKResultTimeout;
+            } else {
+                usleep(10000);
             }
         }
+        if (r < 0) {
+            break;
+        }
         grandTotalSentSize += totalSentSize;
         //RKLog("RKNetworkSendPackets : grandTotalSentSize = %d\n", (int)grandTotalSentSize);
         payload = va_arg(arg, void *);
@@ -52,8 +58,8 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
+    if (r < 0) {
+        return r;
     }
     return grandTotalSentSize;
 }
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..6ab890c 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -744,7 +744,8 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     ssize_t   totalSentSize = 0;
     ssize_t   sentSize = 0;
 
-    int timeout_count = 0;
+    int       timeout_count = 0;
+    ssize_t   r = 0;
 
     pthread_mutex_lock(&O->lock);
 
@@ -755,19 +756,23 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        timeout_count = 0;
+        while (totalSentSize < payloadSize && r == 0) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+                r = -RKResultIncompleteSend;
+            } else if (timeout_count++ >= RKSocketTimeCountOf10ms) {
+                r = -RKResultTimeout;
+            } else {
                 usleep(1000);
-            } else if (sentSize < 0) {
-                pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
             }
         }
+        if (r < 0) {
+            break;
+        }
         grandTotalSentSize += totalSentSize;
         payload = va_arg(arg, void *);
     }
@@ -776,8 +781,8 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     pthread_mutex_unlock(&O->lock);
 
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
+    if (r < 0) {
+        return r;
     }
 
     return grandTotalSentSize;
-- 
2.43.0


From a01e21f51ac042f9034eb35cd8dd945949f4b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 131/240] fix: keep the delimiter of a response apart from that
 of the stream

---
 source/RKServer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 6ab890c..151fd43 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -793,15 +793,17 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 }
 
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypePlainText;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypePlainText;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypeCommandResponse;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypeCommandResponse;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From ec063bcdc6617ae99bcc6cea724b5b2c5735aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 132/240] fix: read every command line as it arrives and none
 while the queue of commands is full

---
 source/RKServer.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 151fd43..a85f952 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -153,12 +153,14 @@ void *RKOperatorRoutine(void *in) {
 
     int             r;
 
-    FILE            *fp;
     fd_set          rfd;
     fd_set          wfd;
     fd_set          efd;
 
+    char            c;
     char            *str;
+    int             length = 0;
+    bool            disconnected = false;
 
     struct timeval  timeout;
     struct timeval  user_timeout = {M->timeoutSeconds, 0};
@@ -185,13 +187,6 @@ void *RKOperatorRoutine(void *in) {
     gettimeofday(&latestReadTime, NULL);
     gettimeofday(&latestWriteTime, NULL);
 
-    // Get a file descriptor for get line
-    fp = fdopen(O->sid, "r");
-    if (fp == NULL) {
-        RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
-        return (void *)RKResultSDToFDError;
-    }
-
     // Run loop for the read/write
     while (M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
         //
@@ -238,7 +233,12 @@ void *RKOperatorRoutine(void *in) {
         //
         FD_ZERO(&rfd);
         FD_ZERO(&efd);
-        FD_SET(O->sid, &rfd);
+        if ((O->commandIndexWrite + 1) % RKServerBufferDepth == O->commandIndexRead) {
+            // The queue is full, the next command waits in the socket
+            gettimeofday(&latestReadTime, NULL);
+        } else {
+            FD_SET(O->sid, &rfd);
+        }
         FD_SET(O->sid, &efd);
         timeout.tv_sec = 0;
         timeout.tv_usec = RKServerSelectTimeoutUs;
@@ -252,18 +252,30 @@ void *RKOperatorRoutine(void *in) {
                 // Ready to read (command)
                 gettimeofday(&latestReadTime, NULL);
                 str = O->commands[O->commandIndexWrite];
-                if (fgets(str, RKMaximumCommandLength - 1, fp) == NULL) {
+                // Take what is there, no further than the end of the line
+                do {
+                    r = (int)recv(O->sid, &c, 1, MSG_DONTWAIT);
+                    if (r > 0) {
+                        str[length++] = c;
+                    }
+                } while (r > 0 && c != '\n' && length < RKMaximumCommandLength - 2);
+                disconnected = r == 0 || (r < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR);
+                if (r < 0 && !disconnected) {
+                    // The rest of the line is yet to come
+                    continue;
+                }
+                if (disconnected) {
                     // When the socket has been disconnected by the client
-                    O->cmd = NULL;
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
                     if (M->t != NULL) {
                         M->t(O);
                     }
                     break;
                 }
+                str[length] = '\0';
+                length = 0;
                 RKStripTail(str);
                 O->commandIndexWrite = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
-                memset(O->commands[O->commandIndexWrite], 0, RKMaximumCommandLength);
             }
         } else if (r < 0) {
             // Errors
@@ -296,7 +308,6 @@ void *RKOperatorRoutine(void *in) {
 
     pthread_join(O->tidExecute, NULL);
     pthread_mutex_destroy(&O->lock);
-    fclose(fp);
 
     O->state = RKOperatorStateHungUp;
 
-- 
2.43.0


From 5b31acb48cdd98a51cac3acd496d592d0fa59a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 133/240] fix: terminate an operator once, after its last
 command

---
 source/RKServer.c | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index a85f952..82bf03a 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -221,9 +221,6 @@ void *RKOperatorRoutine(void *in) {
                 if (timercmp(&timeout, &latestWriteTime, >=)) {
                     // Dismiss with a terminate function
                     RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                    if (M->t != NULL) {
-                        M->t(O);
-                    }
                     break;
                 }
             }
@@ -267,9 +264,6 @@ void *RKOperatorRoutine(void *in) {
                 if (disconnected) {
                     // When the socket has been disconnected by the client
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
-                    if (M->t != NULL) {
-                        M->t(O);
-                    }
                     break;
                 }
                 str[length] = '\0';
@@ -288,25 +282,21 @@ void *RKOperatorRoutine(void *in) {
             if (timercmp(&timeout, &latestReadTime, >=)) {
                 // Dismiss with a terminate function
                 RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                if (M->t != NULL) {
-                    M->t(O);
-                }
                 break;
             }
         }
     } // while () ...
 
-    // If the state was changed deliberately by RKOperatorHangUp()
-    if (O->state == RKOperatorStateClosing) {
-        if (M->t != NULL) {
-            M->t(O);
-        }
-    }
-
     // Set the state if all the 'break' conditions signals the RKOperatorCommandRoutine to quit as well.
     O->state = RKOperatorStateClosing;
 
     pthread_join(O->tidExecute, NULL);
+
+    // However the connection ends, no handler is called after this one
+    if (M->t != NULL) {
+        M->t(O);
+    }
+
     pthread_mutex_destroy(&O->lock);
 
     O->state = RKOperatorStateHungUp;
-- 
2.43.0


From 7f293865e22c146651e95cdb46832291a55c336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 134/240] fix: let the server end with its operators, its
 socket and its thread

---
 source/RKServer.c | 48 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 82bf03a..f0ff26b 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -50,6 +50,7 @@ void *RKServerRoutine(void *in) {
     if (setsockopt(M->sd, SOL_SOCKET, SO_REUSEADDR, &ii, sizeof(ii)) == -1) {
         RKLog("%s Error. Failed at setsockopt().\n", M->name);
         M->state = RKServerStateNull;
+        close(M->sd);
         return NULL;
     }
 
@@ -65,6 +66,7 @@ void *RKServerRoutine(void *in) {
     if (listen(M->sd, M->maxClient + 1) < 0) {
         RKLog("%s Error. Failed at listen().\n", M->name);
         M->state = RKServerStateNull;
+        close(M->sd);
         return NULL;
     }
 
@@ -113,7 +115,11 @@ void *RKServerRoutine(void *in) {
                 close(sid);
             } else {
                 RKOperator *O = RKOperatorCreate(M, sid, inet_ntoa(sa.sin_addr));
-                M->operators[O->iid] = O;
+                if (O != NULL) {
+                    M->operators[O->iid] = O;
+                } else {
+                    close(sid);
+                }
             }
         } else if (ii == 0) {
             // This isn't really an error, just mean no one is connecting & timeout...
@@ -136,6 +142,26 @@ void *RKServerRoutine(void *in) {
         }
     } // while (M->state == RKServerStateActive) ...
 
+    // No more connections, and no more service for those that are still there
+    close(M->sd);
+    if (M->state == RKServerStateActive) {
+        M->state = RKServerStateClosing;
+    }
+    ii = 100;
+    for (k = 0; k < M->maxClient; k++) {
+        if (M->busy[k]) {
+            RKOperator *O = M->operators[k];
+            while (O->state != RKOperatorStateHungUp && ii-- > 0) {
+                usleep(10000);
+            }
+            if (O->state != RKOperatorStateHungUp) {
+                // Could be waiting for a client that does not read
+                shutdown(O->sid, SHUT_RDWR);
+            }
+            RKOperatorFree(O);
+        }
+    }
+
     if (M->verbose > 1) {
         RKLog("%s Returning ...\n", M->name);
     }
@@ -173,6 +199,8 @@ void *RKOperatorRoutine(void *in) {
 
     if (pthread_create(&O->tidExecute, NULL, RKOperatorCommandRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorCommandRoutine().\n", M->name);
+        pthread_mutex_destroy(&O->lock);
+        O->state = RKOperatorStateHungUp;
         return (void *)RKResultErrorCreatingOperatorCommandRoutine;
     }
 
@@ -384,6 +412,8 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
 
     if (pthread_create(&O->tidRead, NULL, RKOperatorRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorRoutine().\n", M->name);
+        M->busy[k] = false;
+        free(O);
         pthread_mutex_unlock(&M->lock);
         return NULL;
     }
@@ -497,6 +527,10 @@ void RKServerFree(RKServer *M) {
     while (M->state > RKServerStateFree) {
         usleep(100000);
     }
+    if (M->threadId) {
+        pthread_join(M->threadId, NULL);
+    }
+    pthread_mutex_destroy(&M->lock);
     free(M);
 }
 
@@ -547,11 +581,21 @@ void RKServerSetSharedResource(RKServer *M, void *resource) {
 #pragma mark - Server actions
 
 void RKServerStart(RKServer *M) {
+    if (M->state > RKServerStateFree) {
+        RKLog("%s Already started.\n", M->name);
+        return;
+    }
+    if (M->threadId) {
+        pthread_join(M->threadId, NULL);
+        M->threadId = (pthread_t)0;
+    }
     M->state = RKServerStateOpening;
     if (pthread_create(&M->threadId, NULL, RKServerRoutine, M)) {
         RKLog("%s Error. Unable to launch main server.\n", M->name);
+        M->threadId = (pthread_t)0;
+        M->state = RKServerStateNull;
     }
-    while (M->state > RKServerStateNull && M->state < RKServerStateActive) {
+    while (M->state == RKServerStateOpening) {
         usleep(25000);
     }
 //    if (M->verbose) {
-- 
2.43.0


From a8c0a73c4dafff058f2c917da596ec6225246f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:37 +0000
Subject: [PATCH 135/240] fix: let the client start and stop at any time, and
 join its thread however it ended

---
 source/RKClient.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..96c4fb3 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -13,11 +13,21 @@
 // Internal functions
 
 void *theClient(void *in);
+void RKClientAdvance(RKClient *, const RKClientState);
 
 // Implementations
 
 #pragma mark - Helper Functions
 
+// A client that has been asked to stop stays that way
+void RKClientAdvance(RKClient *C, const RKClientState state) {
+    pthread_mutex_lock(&C->lock);
+    if (C->state < RKClientStateDisconnecting) {
+        C->state = state;
+    }
+    pthread_mutex_unlock(&C->lock);
+}
+
 void *theClient(void *in) {
     RKClient *C = (RKClient *)in;
 
@@ -29,8 +39,6 @@ void *theClient(void *in) {
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    C->state = RKClientStateCreating;
-
     FILE *fid = NULL;
 
     void *buf = (void *)malloc(RKMaximumPacketSize);
@@ -52,7 +60,7 @@ void *theClient(void *in) {
     // Here comes the infinite loop until being stopped
     while (C->state < RKClientStateDisconnecting) {
 
-        C->state = RKClientStateResolvingIP;
+        RKClientAdvance(C, RKClientStateResolvingIP);
 
         // Resolve hostname to IP address
         if (C->verbose > 1) {
@@ -77,19 +85,16 @@ void *theClient(void *in) {
         if (C->type == RKNetworkSocketTypeTCP) {
             if ((C->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
                 RKLog("%s Error. Unable to create a TCP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
+                break;
             }
         } else if (C->type == RKNetworkSocketTypeUDP) {
             if ((C->sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP)) < 0) {
                 RKLog("%s Error. Unable to create a UDP socket.\n", C->name);
-                C->state = RKClientStateDisconnected;
-                return NULL;
+                break;
             }
         } else {
             RKLog("%s Error. Unable to determine the socket type %d.\n", C->name, C->type);
-            C->state = RKClientStateDisconnected;
-            return NULL;
+            break;
         }
         if (C->blocking == false) {
             flags = fcntl(C->sd, F_GETFL);
@@ -457,7 +462,9 @@ void *theClient(void *in) {
     free(buf);
 
     C->userPayload = NULL;
+    pthread_mutex_lock(&C->lock);
     C->state = RKClientStateDisconnected;
+    pthread_mutex_unlock(&C->lock);
 
     if (C->verbose) {
         RKLog("%s Disconnected.\n", C->name);
@@ -553,8 +560,10 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 void RKClientStart(RKClient *C, const bool waitForConnection) {
     pthread_mutex_init(&C->lock, NULL);
     pthread_attr_init(&C->threadAttributes);
+    C->state = RKClientStateCreating;
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
         RKLog("Error. Unable to launch a socket client.\n");
+        C->state = RKClientStateNull;
         return;
     }
     if (!waitForConnection) {
@@ -570,11 +579,9 @@ void RKClientStart(RKClient *C, const bool waitForConnection) {
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
+    if (C->state > RKClientStateNull) {
         RKLog("%s Disconnecting ...\n", C->name);
-        pthread_mutex_lock(&C->lock);
-        C->state = RKClientStateDisconnecting;
-        pthread_mutex_unlock(&C->lock);
+        RKClientAdvance(C, RKClientStateDisconnecting);
         pthread_join(C->threadId, NULL);
         pthread_attr_destroy(&C->threadAttributes);
         pthread_mutex_destroy(&C->lock);
-- 
2.43.0


From 566607681bc03012ed9b9c3768cadea14a095848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:37 +0000
Subject: [PATCH 136/240] fix: hand over whole messages only, each as soon as
 it is complete

---
 source/RKClient.c | 208 ++++++++++++++++------------------------------
 1 file changed, 73 insertions(+), 135 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 96c4fb3..f4d011a 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -14,11 +14,37 @@
 
 void *theClient(void *in);
 void RKClientAdvance(RKClient *, const RKClientState);
+ssize_t RKClientRead(RKClient *, void *, const ssize_t);
 
 // Implementations
 
 #pragma mark - Helper Functions
 
+// Read exactly so many bytes. Returns less when the connection ended, nothing arrived for too long or the client should stop.
+ssize_t RKClientRead(RKClient *C, void *buf, const ssize_t size) {
+    ssize_t r;
+    ssize_t k = 0;
+    int waitCount = 0;
+    while (k < size && C->state < RKClientStateDisconnecting) {
+        if ((r = recv(C->sd, buf + k, size - k, MSG_DONTWAIT)) > 0) {
+            k += r;
+            waitCount = 0;
+        } else if (r == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
+            if (C->verbose > 1) {
+                RKLog("%s Error. RKClientRead()  r = %d  k = %d / %d  errno = %d (%s)\n",
+                      C->name, (int)r, (int)k, (int)size, errno, RKErrnoString(errno));
+            }
+            break;
+        } else if (waitCount++ < C->timeoutSeconds * 100) {
+            usleep(10000);
+        } else {
+            RKLog("%s Error. Incomplete read().   k = %d / %d\n", C->name, (int)k, (int)size);
+            break;
+        }
+    }
+    return k;
+}
+
 // A client that has been asked to stop stays that way
 void RKClientAdvance(RKClient *C, const RKClientState state) {
     pthread_mutex_lock(&C->lock);
@@ -34,19 +60,21 @@ void *theClient(void *in) {
     int r;
     int k;
     int flags;
-    int readCount, timeoutCount;
+    int timeoutCount;
     struct timeval timeout;
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    FILE *fid = NULL;
+    char line[4096];
+    int lineHead = 0;
+    int lineTail = 0;
+    int lineLength = 0;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
         return (void *)RKResultErrorCreatingOperatorRoutine;
     }
-    void *delimiter = &C->netDelimiter;
     char *cbuf = (char *)buf;
 
     C->userPayload = buf;
@@ -154,7 +182,6 @@ void *theClient(void *in) {
 
         // Server is almost ready to receive (could still be in EINPROGRESS, then select() -> 0)
         if (C->init) {
-            fid = NULL;
             FD_ZERO(&C->wfd);
             FD_ZERO(&C->efd);
             FD_SET(C->sd, &C->wfd);
@@ -201,6 +228,9 @@ void *theClient(void *in) {
 
         // Actively receive
         timeoutCount = 0;
+        lineHead = 0;
+        lineTail = 0;
+        lineLength = 0;
         while (C->state < RKClientStateReconnecting) {
             FD_ZERO(&C->rfd);
             FD_ZERO(&C->efd);
@@ -209,7 +239,13 @@ void *theClient(void *in) {
             timeout.tv_sec = 0;
             timeout.tv_usec = 100000;
             readOkay = false;
-            r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
+            if (lineHead < lineTail) {
+                // There could be more lines in what has been read
+                FD_ZERO(&C->efd);
+                r = 1;
+            } else {
+                r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
+            }
             if (C->verbose > 3 || FD_ISSET(C->sd, &C->efd)) {
                 RKLog("%s select() returned r = %d   FD_ISSET(rfd) = %d   FD_ISSET(efd) = %d   errno = %d.\n",
                       C->name, r, FD_ISSET(C->sd, &C->rfd), FD_ISSET(C->sd, &C->efd), errno);
@@ -228,85 +264,13 @@ void *theClient(void *in) {
 
                     case RKNetworkMessageFormatConstantSize:
 
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->blockLength - k)) > 0) {
-                                k += r;
-                                if (k >= C->blockLength) {
-                                    break;
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                                          C->name, r, k, errno, RKErrnoString(errno), readCount);
-                                }
-                                readCount = C->timeoutSeconds * 100;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                            if (C->verbose > 1) {
-                                RKLog("... errno = %d ...\n", errno);
-                            }
-                        }
-                        if (readCount >= C->timeoutSeconds * 100) {
-                            if (C->verbose > 1) {
-                                RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", C->name, readCount, errno);
-                            }
-                            break;
-                        }
-                        readOkay = true;
+                        readOkay = RKClientRead(C, buf, C->blockLength) == C->blockLength;
                         break;
 
                     case RKNetworkMessageFormatHeaderDefinedSize:
 
                         // The delimiter first
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == sizeof(RKNetDelimiter)) {
-                                        break;
-                                    } else if (k > sizeof(RKNetDelimiter)) {
-                                        RKLog("%s Error. Should not read larger than sizeof(RKNetDelimiter) = %zu\n", C->name, sizeof(RKNetDelimiter));
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedHeaderVariableBlock:1  r = %d  k = %d  errno = %d (%s)\n",
-                                          C->name, r, k, errno, RKErrnoString(errno));
-                                }
-                                readCount = C->timeoutSeconds * 10000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                } else {
-                                    pthread_mutex_unlock(&C->lock);
-                                    break;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        if (k != sizeof(RKNetDelimiter) || readCount > C->timeoutSeconds * 100) {
-                            if (errno != ECONNREFUSED) {
-                                RKLog("%s Error. Incomplete read().   errno = %d (%s)\n", C->name, errno, RKErrnoString(errno));
-                            }
+                        if (RKClientRead(C, &C->netDelimiter, sizeof(RKNetDelimiter)) != sizeof(RKNetDelimiter)) {
                             break;
                         }
                         // If the delimiter specifies 0 payload, it could just be a beacon
@@ -314,76 +278,50 @@ void *theClient(void *in) {
                             if (C->verbose > 1) {
                                 RKLog("%s netDelimiter.size = 0\n", C->name);
                             }
+                            cbuf[0] = '\0';
                             readOkay = true;
                             break;
                         } else if (C->netDelimiter.size > RKMaximumPacketSize) {
                             RKLog("%s Error. Payload size = %s (type %d) is more than what I can handle.\n",
                                   C->name, RKIntegerToCommaStyleString(C->netDelimiter.size), C->netDelimiter.type);
-                            readOkay = false;
                             break;
                         }
                         // Now the actual payload
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->netDelimiter.size - k)) > 0) {
-                                #ifdef DEBUG_RKCLIENT
-                                RKLog("%s read() -> %d / %d / %d    readCount = %d / %d\n",
-                                      C->name, r, C->netDelimiter.size - k,  C->netDelimiter.size, readCount, C->timeoutSeconds * 100);
-                                #endif
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == C->netDelimiter.size) {
-                                        break;
-                                    } else if (k > C->netDelimiter.size) {
-                                        RKLog("%s Error. Should not read larger than specified size = %zu\n", C->name, C->netDelimiter.size);
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                RKLog("%s Error. PCMessageFormatFixedHeaderVariableBlock:2  size=%d   r=%d  k=%d  errno=%d (%s)\n",
-                                      C->name, C->netDelimiter.size, r, k, errno, RKErrnoString(errno));
-                                readCount = C->timeoutSeconds * 1000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        #ifdef DEBUG_RKCLIENT
-                        RKLog("%s k = %d   r = %d   readCount = %d\n", C->name, k, r, readCount);
-                        for (int j = 0; j < 20; j++) {
-                            printf(" %02x/%c", (int)*(cbuf + j), *(cbuf + j));
-                        }
-                        printf("\n");
-                        #endif
-                        // Add a NULL character to the end of payload
-                        cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
+                        if (RKClientRead(C, buf, C->netDelimiter.size) != C->netDelimiter.size) {
                             break;
                         }
+                        // Add a NULL character to the end of payload
+                        cbuf[C->netDelimiter.size] = '\0';
                         readOkay = true;
                         break;
 
                     case RKNetworkMessageFormatNewLine:
                     default:
-                        
-                        if (fid == NULL) {
-                            fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
-                                RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
+
+                        // Go on with the bytes at hand until there is a line, then with what has arrived since
+                        do {
+                            if (lineHead == lineTail) {
+                                lineHead = 0;
+                                lineTail = 0;
+                                r = (int)recv(C->sd, line, sizeof(line), MSG_DONTWAIT);
+                                if (r <= 0) {
+                                    break;
+                                }
+                                lineTail = r;
                             }
+                            cbuf[lineLength++] = line[lineHead++];
+                        } while (cbuf[lineLength - 1] != '\n' && lineLength < RKMaximumPacketSize - 1);
+                        if (lineTail == 0) {
+                            if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+                                // The rest of the line is yet to come
+                                timeoutCount = 0;
+                                continue;
+                            }
+                            break;
                         }
-                        if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
-                            readOkay = true;
-                        }
+                        cbuf[lineLength] = '\0';
+                        lineLength = 0;
+                        readOkay = true;
                         break;
                 } // switch (C->format) ...
 
@@ -396,8 +334,6 @@ void *theClient(void *in) {
                         C->state = RKClientStateReconnecting;
                     }
                     pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
-                    fid = NULL;
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -450,6 +386,8 @@ void *theClient(void *in) {
             } // if (r == 0) ...
         }
 
+        close(C->sd);
+
         // Wait a while before trying to reconnect
         k = 31;
         while (k-- > 1 && C->state < RKClientStateDisconnecting) {
-- 
2.43.0


From 02c065bfaf0ae4336c88be2ae6ba5dbc81772608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 137/240] fix: resolve the host of a client with a function
 that threads can share

---
 source/RKClient.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index f4d011a..72dc4ee 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -64,6 +64,8 @@ void *theClient(void *in) {
     struct timeval timeout;
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
+    struct addrinfo hints;
+    struct addrinfo *h;
 
     char line[4096];
     int lineHead = 0;
@@ -94,8 +96,10 @@ void *theClient(void *in) {
         if (C->verbose > 1) {
             RKLog("%s Resolving IP address ...\n", C->name);
         }
-        struct hostent *h = gethostbyname2(C->hostname, AF_INET);
-        if (h == NULL) {
+        memset(&hints, 0, sizeof(struct addrinfo));
+        hints.ai_family = AF_INET;
+        h = NULL;
+        if (getaddrinfo(C->hostname, NULL, &hints, &h) || h == NULL) {
             RKLog("%s Error. Unable to resolve '%s'\n", C->name, C->hostname);
             k = RKNetworkReconnectSeconds * 10;
             do {
@@ -103,7 +107,8 @@ void *theClient(void *in) {
             } while (k-- > 0 && C->state < RKClientStateReconnecting);
             continue;
         }
-        strcpy(C->hostIP, inet_ntoa(*((struct in_addr *)h->h_addr_list[0])));
+        inet_ntop(AF_INET, &((struct sockaddr_in *)h->ai_addr)->sin_addr, C->hostIP, sizeof(C->hostIP));
+        freeaddrinfo(h);
 
         if (C->verbose > 1) {
             RKLog("%s Opening a %s socket ...\n", C->name,
-- 
2.43.0


From 406e316834b71ba8aa4ec23619f935482f9b01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 138/240] fix: copy only the data path that was given, as far
 as it fits

---
 source/RKRadar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9f46bdc..9135d55 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1391,8 +1391,8 @@ int RKSetVerbosityUsingArray(RKRadar *radar, const uint8_t *array) {
 }
 
 int RKSetDataPath(RKRadar *radar, const char *path) {
-    memcpy(radar->desc.dataPath, path, RKMaximumPathLength - 1);
-    RKSetRootDataFolder(path);
+    snprintf(radar->desc.dataPath, sizeof(radar->desc.dataPath), "%s", path);
+    RKSetRootDataFolder(radar->desc.dataPath);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From ac4c6565ac48d30c6f8d1b5bb19bed64c635a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 139/240] fix: keep track of the engines of a stopped radar so
 that they can be started again or freed

---
 source/RKRadar.c | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9135d55..5663cf8 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1984,6 +1984,7 @@ int RKStop(RKRadar *radar) {
     radar->state &= ~RKRadarStateLive;
     if (radar->systemInspector) {
         RKSimpleEngineFree(radar->systemInspector);
+        radar->systemInspector = NULL;
     }
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Radar state = 0x%08x\n", radar->state);
@@ -2025,51 +2026,39 @@ int RKStop(RKRadar *radar) {
     }
     if (radar->state & RKRadarStateFileManagerInitialized) {
         RKFileManagerStop(radar->fileManager);
-        radar->state ^= RKRadarStateFileManagerInitialized;
     }
     if (radar->state & RKRadarStateHostMonitorInitialized) {
         RKHostMonitorStop(radar->hostMonitor);
-        radar->state ^= RKRadarStateHostMonitorInitialized;
     }
     if (radar->state & RKRadarStatePulseCompressionEngineInitialized) {
         RKPulseEngineStop(radar->pulseEngine);
-        radar->state ^= RKRadarStatePulseCompressionEngineInitialized;
     }
     if (radar->state & RKRadarStatePulseRingFilterEngineInitialized) {
         RKPulseRingFilterEngineStop(radar->pulseRingFilterEngine);
-        radar->state ^= RKRadarStatePulseRingFilterEngineInitialized;
     }
     if (radar->state & RKRadarStatePositionEngineInitialized) {
         RKPositionEngineStop(radar->positionEngine);
-        radar->state ^= RKRadarStatePositionEngineInitialized;
     }
     if (radar->state & RKRadarStatePositionSteerEngineInitialized) {
         RKSteerEngineStop(radar->steerEngine);
-        radar->state ^= RKRadarStatePositionSteerEngineInitialized;
     }
     if (radar->state & RKRadarStateMomentEngineInitialized) {
         RKMomentEngineStop(radar->momentEngine);
-        radar->state ^= RKRadarStateMomentEngineInitialized;
     }
     if (radar->state & RKRadarStateHealthEngineInitialized) {
         RKHealthEngineStop(radar->healthEngine);
-        radar->state ^= RKRadarStateHealthEngineInitialized;
     }
     if (radar->state & RKRadarStateHealthLoggerInitialized) {
         RKHealthLoggerStop(radar->healthLogger);
-        radar->state ^= RKRadarStateHealthLoggerInitialized;
     }
     if (radar->state & RKRadarStateRadarRelayInitialized) {
         RKRadarRelayStop(radar->radarRelay);
-        radar->state ^= RKRadarStateRadarRelayInitialized;
     }
     if (radar->state & RKRadarStateFileRecorderInitialized) {
         RKRawDataRecorderStop(radar->rawDataRecorder);
-        radar->state ^= RKRadarStateFileRecorderInitialized;
     }
     if (radar->state & RKRadarStateSweepEngineInitialized) {
         RKSweepEngineStop(radar->sweepEngine);
-        radar->state ^= RKRadarStateSweepEngineInitialized;
     }
     if (radar->desc.initFlags & RKInitFlagVeryVeryVerbose) {
         RKLog("Radar state = 0x%x\n", radar->state);
-- 
2.43.0


From 89fdbcb72098bfc1eb64dd7bf1ab6afc9511ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 140/240] fix: free everything the radar allocated

---
 source/RKRadar.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 5663cf8..694728f 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1081,6 +1081,11 @@ int RKFree(RKRadar *radar) {
     // Various RadarKit engines
     if (radar->state & RKRadarStateFileManagerInitialized) {
         RKFileManagerFree(radar->fileManager);
+        radar->fileManager = NULL;
+    }
+    if (radar->state & RKRadarStateHostMonitorInitialized) {
+        RKHostMonitorFree(radar->hostMonitor);
+        radar->hostMonitor = NULL;
     }
     if (radar->pulseClock) {
         RKClockFree(radar->pulseClock);
@@ -1150,11 +1155,11 @@ int RKFree(RKRadar *radar) {
     if (radar->healthRelay) {
         radar->healthRelayFree(radar->healthRelay);
         radar->healthRelay = NULL;
-        for (k = 0; k < RKHealthNodeCount; k++) {
-            if (radar->userDevices[k].device) {
-                radar->userDevices[k].free(radar->userDevices[k].device);
-                radar->userDevices[k].device = NULL;
-            }
+    }
+    for (k = 0; k < RKHealthNodeCount; k++) {
+        if (radar->userDevices[k].device) {
+            radar->userDevices[k].free(radar->userDevices[k].device);
+            radar->userDevices[k].device = NULL;
         }
     }
     // Internal copies of things
@@ -1166,9 +1171,13 @@ int RKFree(RKRadar *radar) {
         RKWaveformFree(radar->waveform);
         radar->waveform = NULL;
     }
+    if (radar->waveformDecimate) {
+        RKWaveformFree(radar->waveformDecimate);
+        radar->waveformDecimate = NULL;
+    }
     if (radar->filter) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing filter ...\n", radar->waveform->name);
+            RKLog("Freeing filter ...\n");
         }
         free(radar->filter);
         radar->filter = NULL;
@@ -1187,6 +1196,9 @@ int RKFree(RKRadar *radar) {
         free(radar->healths);
     }
     if (radar->state & RKRadarStateHealthNodesAllocated) {
+        for (k = 0; k < radar->desc.healthNodeCount; k++) {
+            free(radar->healthNodes[k].healths);
+        }
         free(radar->healthNodes);
     }
     if (radar->state & RKRadarStatePositionBufferAllocated) {
-- 
2.43.0


From b46f971859c47df78032594933d3ebd361c8d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 141/240] fix: free the waveform that was loaded to be copied

---
 source/RKRadar.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 694728f..905239a 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,11 @@ int RKSetWaveformByFilename(RKRadar *radar, const char *filename) {
     }
     // Load in the waveform
     RKWaveform *waveform = RKWaveformInitFromFile(filename);
-    return RKSetWaveform(radar, waveform);
+    int r = RKSetWaveform(radar, waveform);
+    if (waveform) {
+        RKWaveformFree(waveform);
+    }
+    return r;
 }
 
 int RKSetWaveformToImpulse(RKRadar *radar) {
@@ -1560,7 +1564,9 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
         return RKResultNoPulseCompressionEngine;
     }
     RKWaveform *waveform = RKWaveformInitAsImpulse();
-    return RKSetWaveform(radar, waveform);;
+    int r = RKSetWaveform(radar, waveform);
+    RKWaveformFree(waveform);
+    return r;
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-- 
2.43.0


From 3562bf3375057f9195983f7e9f171026c7fc1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 142/240] fix: do not leak the exported DFT wisdom

---
 source/RKDSP.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..c8452e1 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -492,13 +492,13 @@ RKFFTModule *RKFFTModuleInit(const uint32_t capacity, const int verbose) {
     }
 
     // DFT Wisdom
-    char *wisdom = (char *)malloc(1024 * 1024);
+    char *wisdom = NULL;
     sprintf(module->wisdomFile, "%s/%s", rkGlobalParameters.rootDataFolder, RKFFTWisdomFile);
     RKPreparePath(module->wisdomFile);
     if (RKFilenameExists(module->wisdomFile)) {
         RKLog("%s Loading DFT wisdom %s ...\n", module->name, module->wisdomFile);
         fftwf_import_wisdom_from_filename(module->wisdomFile);
-        strcpy(wisdom, fftwf_export_wisdom_to_string());
+        wisdom = fftwf_export_wisdom_to_string();
     } else {
         RKLog("%s DFT wisdom file not found.\n", module->name);
         module->exportWisdom = true;
@@ -527,9 +527,11 @@ RKFFTModule *RKFFTModuleInit(const uint32_t capacity, const int verbose) {
         module->count++;
     }
     if (!module->exportWisdom) {
-        if (strcmp(wisdom, fftwf_export_wisdom_to_string())) {
+        char *newWisdom = fftwf_export_wisdom_to_string();
+        if (wisdom == NULL || newWisdom == NULL || strcmp(wisdom, newWisdom)) {
             module->exportWisdom = true;
         }
+        free(newWisdom);
     }
     if (module->exportWisdom) {
         RKLog("%s Saving DFT wisdom %s ...\n", module->name, module->wisdomFile);
-- 
2.43.0


From 89da6c14e68c067ace42f49d11c1c937386c4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 143/240] fix: free the hosts of a host monitor, and let it
 start again after a stop

---
 source/RKHostMonitor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 38902f8..9ddf653 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -476,6 +476,8 @@ static void *hostWatcher(void *in) {
         pthread_join(engine->workers[k].tid, NULL);
     }
     free(engine->workers);
+    engine->workers = NULL;
+    engine->memoryUsage -= engine->workerCount * sizeof(RKUnitMonitor);
 
     engine->state ^= RKEngineStateActive;
     return NULL;
@@ -505,6 +507,7 @@ void RKHostMonitorFree(RKHostMonitor *engine) {
         RKHostMonitorStop(engine);
     }
     pthread_mutex_destroy(&engine->mutex);
+    free(engine->hosts);
     free(engine);
 }
 
-- 
2.43.0


From 1b944661263ad723ec17645002fcd0e26ec656d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 144/240] fix: terminate the name of a monitored host

---
 source/RKHostMonitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 9ddf653..5036b3d 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -524,7 +524,7 @@ void RKHostMonitorAddHost(RKHostMonitor *engine, const char *address) {
     }
     int k = engine->workerCount++;
     engine->hosts = realloc(engine->hosts, engine->workerCount * sizeof(RKName));
-    strncpy(engine->hosts[k], address, RKNameLength - 1);
+    snprintf(engine->hosts[k], RKNameLength, "%s", address);
     engine->memoryUsage = sizeof(RKHostMonitor) + engine->workerCount * sizeof(RKName);
     engine->state |= RKEngineStateProperlyWired;
 }
-- 
2.43.0


From 6ab1e84522b508249e578d73bacc54d87d4cc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 145/240] fix: close the socket of a host pinger that cannot be
 set up

---
 source/RKHostMonitor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 5036b3d..8ba8592 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -154,6 +154,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in setsockopt() IP_RECVTTL.\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -161,6 +162,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in setsockopt().\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -168,6 +170,7 @@ static void *hostPinger(void *in) {
         RKLog("%s %s Error. Failed in fcntl().\n", engine->name, me->name);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
+        close(sd);
         free(buff);
         return NULL;
     }
@@ -348,7 +351,7 @@ static void *hostPinger(void *in) {
         }
     }
 
-    if (sd) {
+    if (sd >= 0) {
         close(sd);
     }
     free(buff);
-- 
2.43.0


From bbf1c974fe2c00dc12dcf530eb3a2f286488dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 146/240] fix: keep the command of a background task until the
 task has run, and the radar too

---
 headers/RadarKit/RKRadar.h |  1 +
 source/RKRadar.c           | 29 +++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index 96a7428..b102248 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -181,6 +181,7 @@ struct rk_radar {
     //
     RKMasterController               masterController;
     int                              (*masterControllerExec)(RKMasterController, const char *, char *);
+    volatile int                     backgroundTaskCount;
     //
     RKUserDevice                     userDevices[RKHealthNodeCount];
     //
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 905239a..9dc1dfa 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -434,9 +434,12 @@ void *radarCoPilot(void *in) {
 
 void *masterControllerExecuteInBackground(void *in) {
     RKRadarCommand *radarCommand = (RKRadarCommand *)in;
-    if (radarCommand->radar->masterController) {
-        radarCommand->radar->masterControllerExec(radarCommand->radar->masterController, radarCommand->command, NULL);
+    RKRadar *radar = radarCommand->radar;
+    if (radar->masterController) {
+        radar->masterControllerExec(radar->masterController, radarCommand->command, NULL);
     }
+    free(radarCommand);
+    __sync_sub_and_fetch(&radar->backgroundTaskCount, 1);
     return NULL;
 }
 
@@ -2004,6 +2007,9 @@ int RKStop(RKRadar *radar) {
         RKSimpleEngineFree(radar->systemInspector);
         radar->systemInspector = NULL;
     }
+    while (radar->backgroundTaskCount) {
+        usleep(1000);
+    }
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Radar state = 0x%08x\n", radar->state);
     }
@@ -2648,11 +2654,22 @@ void RKPerformMasterTaskInBackground(RKRadar *radar, const char *command) {
         RKLog("Master controller is not set.\n");
         return;
     }
-    RKRadarCommand taskInput;
-    taskInput.radar = radar;
-    strncpy(taskInput.command, command, RKMaximumCommandLength - 1);
+    RKRadarCommand *taskInput = (RKRadarCommand *)malloc(sizeof(RKRadarCommand));
+    if (taskInput == NULL) {
+        RKLog("Error. Unable to allocate a background task.\n");
+        return;
+    }
+    taskInput->radar = radar;
+    snprintf(taskInput->command, sizeof(RKCommand), "%s", command);
     pthread_t tid;
-    pthread_create(&tid, NULL, &masterControllerExecuteInBackground, &taskInput);
+    __sync_add_and_fetch(&radar->backgroundTaskCount, 1);
+    if (pthread_create(&tid, NULL, &masterControllerExecuteInBackground, taskInput)) {
+        RKLog("Error. Failed to start a background task.\n");
+        __sync_sub_and_fetch(&radar->backgroundTaskCount, 1);
+        free(taskInput);
+        return;
+    }
+    pthread_detach(tid);
 }
 
 // General
-- 
2.43.0


From 28facac181379f056d6da5915b534d5ab3ce7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 147/240] fix: go live with a pedestal but no position engine

---
 source/RKRadar.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9dc1dfa..458d4f3 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1877,7 +1877,9 @@ int RKGoLive(RKRadar *radar) {
             return RKResultIncompletePedestal;
         }
         radar->pedestal = radar->pedestalInit(radar, radar->pedestalInitInput);
-        radar->positionEngine->pedestal = radar->pedestal;
+        if (radar->positionEngine) {
+            radar->positionEngine->pedestal = radar->pedestal;
+        }
         if (radar->pedestal == NULL) {
             RKLog("Error. Unable to start the pedestal.\n");
             pthread_mutex_unlock(&radar->mutex);
-- 
2.43.0


From 5ebbaef25758bea44fa9dbdc0e75376bce909f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 148/240] fix: free the devices of an earlier life when the
 radar goes live again

---
 source/RKRadar.c | 52 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 458d4f3..8c72131 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -410,6 +410,34 @@ RKSimpleEngine *RKSystemInspector(RKRadar *radar) {
 
 #pragma mark - Helper Functions
 
+static void freeDevices(RKRadar *radar) {
+    if (radar->masterController == radar->transceiver) {
+        radar->masterController = NULL;
+        radar->masterControllerExec = NULL;
+    }
+    if (radar->pedestal) {
+        if (radar->positionEngine) {
+            radar->positionEngine->pedestal = NULL;
+        }
+        radar->pedestalFree(radar->pedestal);
+        radar->pedestal = NULL;
+    }
+    if (radar->transceiver) {
+        radar->transceiverFree(radar->transceiver);
+        radar->transceiver = NULL;
+    }
+    if (radar->healthRelay) {
+        radar->healthRelayFree(radar->healthRelay);
+        radar->healthRelay = NULL;
+    }
+    for (int k = 0; k < RKHealthNodeCount; k++) {
+        if (radar->userDevices[k].device) {
+            radar->userDevices[k].free(radar->userDevices[k].device);
+            radar->userDevices[k].device = NULL;
+        }
+    }
+}
+
 void *radarCoPilot(void *in) {
     RKRadar *radar = (RKRadar *)in;
     RKMomentEngine *productGenerator = radar->momentEngine;
@@ -1147,24 +1175,7 @@ int RKFree(RKRadar *radar) {
         radar->rawDataRecorder = NULL;
     }
     // Transceiver, pedestal & health relay
-    if (radar->pedestal) {
-        radar->pedestalFree(radar->pedestal);
-        radar->pedestal = NULL;
-    }
-    if (radar->transceiver) {
-        radar->transceiverFree(radar->transceiver);
-        radar->transceiver = NULL;
-    }
-    if (radar->healthRelay) {
-        radar->healthRelayFree(radar->healthRelay);
-        radar->healthRelay = NULL;
-    }
-    for (k = 0; k < RKHealthNodeCount; k++) {
-        if (radar->userDevices[k].device) {
-            radar->userDevices[k].free(radar->userDevices[k].device);
-            radar->userDevices[k].device = NULL;
-        }
-    }
+    freeDevices(radar);
     // Internal copies of things
     if (radar->waveform) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
@@ -1763,6 +1774,11 @@ int RKGoLive(RKRadar *radar) {
     pthread_mutex_lock(&radar->mutex);
     radar->tic++;
 
+    // Devices that have been disconnected
+    if (!(radar->state & RKRadarStateLive)) {
+        freeDevices(radar);
+    }
+
     // Start the engines
     RKFileManagerStart(radar->fileManager);
     RKHostMonitorStart(radar->hostMonitor);
-- 
2.43.0


From e0a272bcd94085cf2a773ee7f5133db78648bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 149/240] fix: restart a radar that has no pulse clock

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 8c72131..515b488 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1549,7 +1549,7 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
     if (radar->desc.initFlags & RKInitFlagVerbose) {
         RKPulseEngineFilterSummary(radar->pulseEngine);
     }
-    if (radar->state & RKRadarStateLive) {
+    if (radar->state & RKRadarStateLive && radar->pulseClock) {
         RKClockReset(radar->pulseClock);
     }
     return RKResultSuccess;
-- 
2.43.0


From 310efe2683e80d68af843c0e3b9adaa1c3589972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 150/240] fix: reject a lag choice before the moment processor
 is changed

---
 source/RKRadar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 515b488..9f104b3 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1631,12 +1631,12 @@ int RKSetMomentProcessorToMultiLag(RKRadar *radar, const uint8_t lagChoice) {
     if (radar->momentEngine->momentProcessor == &RKMultiLag && radar->momentEngine->userLagChoice == lagChoice) {
         return RKResultSuccess;
     }
-    radar->momentEngine->momentProcessor = &RKMultiLag;
-    radar->momentEngine->processorLagCount = RKMaximumLagCount;
     if (lagChoice < 0 || lagChoice > 4) {
         RKLog("Error. Invalid lag choice (%d) for multi-lag method.\n", lagChoice);
         return RKResultInvalidMomentParameters;
     }
+    radar->momentEngine->momentProcessor = &RKMultiLag;
+    radar->momentEngine->processorLagCount = RKMaximumLagCount;
     radar->momentEngine->userLagChoice = lagChoice;
     RKLog("Moment processor set to %sMultilag %d%s",
           rkGlobalParameters.showColor ? "\033[4m" : "",
-- 
2.43.0


From a96da332918c3554cfe4189e8ebab1c116973de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 151/240] fix: set the verbosity of the clocks too, and only
 that of engines that exist

---
 source/RKRadar.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9f104b3..4981954 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1379,32 +1379,46 @@ int RKSetVerbosity(RKRadar *radar, const int verbose) {
 
 int RKSetVerbosityUsingArray(RKRadar *radar, const uint8_t *array) {
     int k;
-    for (k = 'a'; k < 'z'; k++) {
+    for (k = '0'; k <= 'z'; k++) {
         if (array[k] == 0) {
             continue;
         }
         const int verbose = array[k];
         switch (k) {
             case '0':
-                RKClockSetVerbose(radar->positionClock, verbose);
+                if (radar->positionClock) {
+                    RKClockSetVerbose(radar->positionClock, verbose);
+                }
                 break;
             case '1':
-                RKClockSetVerbose(radar->pulseClock, verbose);
+                if (radar->pulseClock) {
+                    RKClockSetVerbose(radar->pulseClock, verbose);
+                }
                 break;
             case 'a':
-                RKPositionEngineSetVerbose(radar->positionEngine, verbose);
+                if (radar->positionEngine) {
+                    RKPositionEngineSetVerbose(radar->positionEngine, verbose);
+                }
                 break;
             case 'b':
-                RKSteerEngineSetVerbose(radar->steerEngine, verbose);
+                if (radar->steerEngine) {
+                    RKSteerEngineSetVerbose(radar->steerEngine, verbose);
+                }
                 break;
             case 'm':
-                RKMomentEngineSetVerbose(radar->momentEngine, verbose);
+                if (radar->momentEngine) {
+                    RKMomentEngineSetVerbose(radar->momentEngine, verbose);
+                }
                 break;
             case 'p':
-                RKPulseEngineSetVerbose(radar->pulseEngine, verbose);
+                if (radar->pulseEngine) {
+                    RKPulseEngineSetVerbose(radar->pulseEngine, verbose);
+                }
                 break;
             case 'r':
-                RKPulseRingFilterEngineSetVerbose(radar->pulseRingFilterEngine, verbose);
+                if (radar->pulseRingFilterEngine) {
+                    RKPulseRingFilterEngineSetVerbose(radar->pulseRingFilterEngine, verbose);
+                }
                 break;
             case 's':
                 RKSweepEngineSetVerbose(radar->sweepEngine, verbose);
-- 
2.43.0


From 755454d431947eb2b9ad768e2c654d7a6d5b1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 152/240] fix: keep a replaced waveform or user module for as
 long as a configuration refers to it

---
 headers/RadarKit/RKRadar.h |   5 ++
 source/RKRadar.c           | 108 ++++++++++++++++++++++---------------
 2 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/headers/RadarKit/RKRadar.h b/headers/RadarKit/RKRadar.h
index b102248..18b3e83 100644
--- a/headers/RadarKit/RKRadar.h
+++ b/headers/RadarKit/RKRadar.h
@@ -73,6 +73,7 @@ enum {
 };
 
 typedef struct rk_radar RKRadar;
+typedef struct rk_old_resource RKOldResource;
 typedef struct rk_user_device RKUserDevice;
 //
 // Simple device that reports health only
@@ -200,6 +201,10 @@ struct rk_radar {
     RKUserModule                     userModule;
     RKUserModule                     (*userModuleInit)(RKWaveform *);
     void                             (*userModuleFree)(RKUserModule);
+    //
+    // Replaced waveforms and user modules
+    //
+    RKOldResource                    *oldResources;
 };
 
 //
diff --git a/source/RKRadar.c b/source/RKRadar.c
index 4981954..c5c1e19 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -25,11 +25,16 @@ enum UIDType {
     UIDTypeWaveformCalibration
 };
 
-typedef struct rk_old_source {
-    RKRadar       *radar;
-    RKUserModule  module;
-    uint64_t      targetConfigId;
-} RKOldUserModule;
+// A replaced waveform / user module, which may still be in use through the config buffer
+struct rk_old_resource {
+    RKWaveform                       *waveform;
+    RKUserModule                     userModule;
+    void                             (*userModuleFree)(RKUserModule);
+    time_t                           time;
+    struct rk_old_resource           *next;
+};
+
+#define RKOldResourceMinimumAge  5
 
 #pragma mark - Static Functions
 
@@ -50,26 +55,56 @@ static uint32_t getUID(UIDType type) {
     return 0;
 }
 
-void *freeUserModuleDelayed(void *input) {
-    RKOldUserModule *resource = (RKOldUserModule *)input;
-    RKRadar *radar = resource->radar;
-    bool all = true;
-    int k = 0;
-    do {
-        all = true;
-        for (int c = 0; c < radar->pulseEngine->coreCount; c++) {
-            all &= radar->pulseEngine->workers[c].cid >= resource->targetConfigId;
-        }
-        usleep(10000);
-    } while (radar->active && k++ < 500 && !all);
-    if (k == 500) {
-        RKLog("Forcing removal of user module %p ...\n", resource->module);
+static time_t monotonicTime(void) {
+    struct timespec t;
+    clock_gettime(CLOCK_MONOTONIC, &t);
+    return t.tv_sec;
+}
+
+static void retireResource(RKRadar *radar, RKWaveform *waveform, RKUserModule userModule) {
+    if (waveform == NULL && userModule == NULL) {
+        return;
     }
-    if (radar->desc.initFlags & RKInitFlagVerbose) {
-        RKLog("Freeing user module %p ...\n", resource->module);
+    RKOldResource *resource = (RKOldResource *)malloc(sizeof(RKOldResource));
+    if (resource == NULL) {
+        RKLog("Error. Unable to keep track of an old resource.\n");
+        return;
+    }
+    resource->waveform = waveform;
+    resource->userModule = userModule;
+    resource->userModuleFree = radar->userModuleFree;
+    resource->time = monotonicTime();
+    resource->next = radar->oldResources;
+    radar->oldResources = resource;
+}
+
+// Free the old resources that no configuration refers to, or all of them
+static void freeOldResources(RKRadar *radar, const bool all) {
+    RKOldResource **link = &radar->oldResources;
+    while (*link) {
+        RKOldResource *resource = *link;
+        bool inUse = !all && monotonicTime() - resource->time < RKOldResourceMinimumAge;
+        for (int k = 0; !all && !inUse && k < radar->desc.configBufferDepth; k++) {
+            RKConfig *config = &radar->configs[k];
+            inUse = (resource->waveform && (config->waveform == resource->waveform || config->waveformDecimate == resource->waveform)) ||
+                    (resource->userModule && config->userResource == resource->userModule);
+        }
+        if (inUse) {
+            link = &resource->next;
+            continue;
+        }
+        *link = resource->next;
+        if (resource->waveform) {
+            RKWaveformFree(resource->waveform);
+        }
+        if (resource->userModule) {
+            if (radar->desc.initFlags & RKInitFlagVerbose) {
+                RKLog("Freeing user module %p ...\n", resource->userModule);
+            }
+            resource->userModuleFree(resource->userModule);
+        }
+        free(resource);
     }
-    radar->userModuleFree(resource->module);
-    return NULL;
 }
 
 void RKUpdateWaveformCalibration(RKRadar *, const uint8_t, const RKWaveformCalibration *);
@@ -1177,6 +1212,7 @@ int RKFree(RKRadar *radar) {
     // Transceiver, pedestal & health relay
     freeDevices(radar);
     // Internal copies of things
+    freeOldResources(radar, true);
     if (radar->waveform) {
         if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
             RKLog("Freeing waveform '%s' with %d group%s ...\n",
@@ -1491,7 +1527,6 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
         RKLog("Error. Multiplexing = %d filters has not been implemented. Reverting to impulse filter.\n", waveform->filterCounts[0]);
         return RKSetWaveformToImpulse(radar);
     }
-    RKConfig *config = RKGetLatestConfig(radar);
     RKWaveform *oldWaveform = radar->waveform;
     RKWaveform *oldWaveformDecimate = radar->waveformDecimate;
     const double pulseWidth = (double)waveform->depth / waveform->fs;
@@ -1528,14 +1563,7 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
         radar->userModule = new;
         radar->pulseEngine->userModule = radar->userModule;
         radar->momentEngine->userModule = radar->userModule;
-        if (old != NULL) {
-            RKOldUserModule *resource = (RKOldUserModule *)malloc(sizeof(RKOldUserModule));
-            resource->radar = radar;
-            resource->module = old;
-            resource->targetConfigId = config->i;
-            pthread_t tid;
-            pthread_create(&tid, NULL, &freeUserModuleDelayed, resource);
-        }
+        retireResource(radar, NULL, old);
     }
     // Send the waveform pointers to config buffer
     RKAddConfig(radar,
@@ -1548,18 +1576,10 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Waveform '%s' cached.\n", waveform->name);
     }
-    if (oldWaveformDecimate != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveformDecimate cache ...\n");
-        }
-        RKWaveformFree(oldWaveformDecimate);
-    }
-    if (oldWaveform != NULL) {
-        if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
-            RKLog("Freeing radar->waveform cache ...\n");
-        }
-        RKWaveformFree(oldWaveform);
-    }
+    // The engines may still be using the old waveforms through the config buffer
+    retireResource(radar, oldWaveform, NULL);
+    retireResource(radar, oldWaveformDecimate, NULL);
+    freeOldResources(radar, false);
     if (radar->desc.initFlags & RKInitFlagVerbose) {
         RKPulseEngineFilterSummary(radar->pulseEngine);
     }
-- 
2.43.0


From 0ac7b18eccd4631b70967910c57be3442723550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:43 +0000
Subject: [PATCH 153/240] fix: close the semaphores of the workers when an
 engine stops

---
 source/RKMomentEngine.c    | 2 ++
 source/RKPulseEngine.c     | 3 +++
 source/RKPulseRingFilter.c | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 7a5a8c1..17e55bc 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -842,6 +842,7 @@ static void *pulseGatherer(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
     if (engine->state & RKEngineStateActive) {
         engine->state ^= RKEngineStateActive;
@@ -1123,6 +1124,7 @@ static void *pulseGathererV1(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
 
     engine->state ^= RKEngineStateActive;
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 5786985..c1e92f1 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -553,6 +553,7 @@ static void *pulseEngineCore(void *_in) {
         RKLog("%s Freeing reources ...\n", me->name);
     }
 
+    sem_close(sem);
     free(busyPeriods);
     free(fullPeriods);
     RKCompressionScratchFree(scratch);
@@ -756,6 +757,7 @@ static void *pulseWatcher(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
     if (engine->state & RKEngineStateActive) {
         engine->state ^= RKEngineStateActive;
@@ -956,6 +958,7 @@ static void *pulseWatcherV1(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
 
     engine->state ^= RKEngineStateActive;
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 425cd01..c11065b 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -407,6 +407,7 @@ static void *ringFilterCore(void *_in) {
     free(xx.q);
     free(yy.i);
     free(yy.q);
+    sem_close(sem);
     free(busyPeriods);
     free(fullPeriods);
 
@@ -662,6 +663,7 @@ static void *pulseRingWatcher(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
     if (engine->state & RKEngineStateActive) {
         engine->state ^= RKEngineStateActive;
@@ -944,6 +946,7 @@ static void *pulseRingWatcherV1(void *_in) {
         }
         pthread_join(worker->tid, NULL);
         sem_unlink(worker->semaphoreName);
+        sem_close(worker->sem);
     }
 
     // Clean up
-- 
2.43.0


From 089313f2d030d7047ff3b0c17222b67ccc5c7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 154/240] fix: measure noise from the gates that are left after
 down sampling

---
 source/RKDSP.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index c8452e1..733be61 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -50,9 +50,10 @@ int RKMeasureNoiseFromPulse(RKFloat *noise, RKPulse *pulse, const int origin) {
         RKLog("Noise measurement timed out.  k = %d  pulse.header.s = %04x\n", k, pulse->header.s);
         return RKResultTimeout;
     }
-    if (pulse->header.gateCount < 2 * origin) {
+    const int gateCount = (int)pulse->header.downSampledGateCount;
+    if (gateCount <= 2 * origin) {
         RKLog("Error. Unable to measure noise at origin %s with %s gates.\n",
-              RKIntegerToCommaStyleString(origin), RKIntegerToCommaStyleString(pulse->header.gateCount));
+              RKIntegerToCommaStyleString(origin), RKIntegerToCommaStyleString(gateCount));
         return RKResultTooBig;
     }
     RKComplex *x;
@@ -61,7 +62,7 @@ int RKMeasureNoiseFromPulse(RKFloat *noise, RKPulse *pulse, const int origin) {
         // Add and subtract a few gates to avoid transcient efftects
         x += origin;
         noise[p] = 0.0f;
-        for (j = 0; j < pulse->header.gateCount - 2 * origin; j++) {
+        for (j = 0; j < gateCount - 2 * origin; j++) {
             noise[p] += x->i * x->i + x->q * x->q;
             x++;
         }
-- 
2.43.0


From c4b9236f19f3b824b392bdc41be97fa7ed8ff87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 155/240] fix: average the noise over the pulses it could be
 measured from

---
 source/RKRadar.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index c5c1e19..6ffbf71 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2754,15 +2754,27 @@ void RKMeasureNoise(RKRadar *radar) {
     }
     // Account for down-sampling stride in PulseCompressionEngine
     origin /= MAX(1, radar->desc.pulseToRayRatio);
-    for (k = 0; k < RKPulseCountForNoiseMeasurement; k++) {
+    int count = 0;
+    for (k = 0; k < MIN(RKPulseCountForNoiseMeasurement, (int)radar->desc.pulseBufferDepth); k++) {
         index = RKPreviousModuloS(index, radar->desc.pulseBufferDepth);
         pulse = RKGetPulseFromBuffer(radar->pulses, index);
-        RKMeasureNoiseFromPulse(noise, pulse, origin);
+        int r = RKMeasureNoiseFromPulse(noise, pulse, origin);
+        if (r == RKResultTimeout) {
+            // No more compressed pulses
+            break;
+        } else if (r != RKResultSuccess) {
+            continue;
+        }
         noiseAverage[0] += noise[0];
         noiseAverage[1] += noise[1];
+        count++;
+    }
+    if (count == 0) {
+        RKLog("Error. No pulse to measure noise from.\n");
+        return;
     }
-    noiseAverage[0] /= (RKFloat)k;
-    noiseAverage[1] /= (RKFloat)k;
+    noiseAverage[0] /= (RKFloat)count;
+    noiseAverage[1] /= (RKFloat)count;
     if (!isfinite(noiseAverage[0])) {
         noiseAverage[0] = 0.001f;
     }
-- 
2.43.0


From 920b50e087f96a8e724fdcb8c7b60015cc87b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 156/240] fix: plan Fourier transforms for as many samples as a
 ray may have pulses

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 6ffbf71..6eb34e4 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -941,7 +941,7 @@ RKRadar *RKInitWithDesc(const RKRadarDesc desc) {
     // Signal processor performs pulse compression, calculates moment, etc.
     if (radar->desc.initFlags & RKInitFlagSignalProcessor) {
         // FFT module
-        radar->fftModule = RKFFTModuleInit(radar->desc.pulseCapacity, radar->desc.initFlags & RKInitFlagVerbose ? 1 : 0);
+        radar->fftModule = RKFFTModuleInit(MAX(radar->desc.pulseCapacity, RKMaximumPulsesPerRay), radar->desc.initFlags & RKInitFlagVerbose ? 1 : 0);
         radar->memoryUsage += sizeof(RKFFTModule);
 
         // Pulse compression engine
-- 
2.43.0


From d4062dbd8d85b9ea636b769d83bed3225e8e8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 157/240] fix: keep the waveform when the filters of a new one
 cannot be set

---
 source/RKRadar.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 6eb34e4..50f6de2 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1544,6 +1544,16 @@ int RKSetWaveform(RKRadar *radar, RKWaveform *waveform) {
                                        k,
                                        j);
             if (r != RKResultSuccess) {
+                // Stay with the previous waveform
+                RKWaveformFree(radar->waveform);
+                RKWaveformFree(radar->waveformDecimate);
+                radar->waveform = oldWaveform;
+                radar->waveformDecimate = oldWaveformDecimate;
+                if (oldWaveform) {
+                    RKPulseEngineSetFilterByWaveform(radar->pulseEngine, oldWaveform);
+                } else {
+                    RKPulseEngineSetFilterToImpulse(radar->pulseEngine);
+                }
                 return RKResultFailedToSetWaveform;
             }
         }
-- 
2.43.0


From d9c20561e9ec2d3364cf2794d285dabb0ba13e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 158/240] fix: time pulses and positions without the clocks of
 the pulse position combiner

---
 source/RKRadar.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 50f6de2..a581663 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1641,11 +1641,15 @@ uint32_t RKGetPulseCapacity(RKRadar *radar) {
 }
 
 void RKSetPulseTicsPerSeconds(RKRadar *radar, const double delta) {
-    RKClockSetDxDu(radar->pulseClock, 1.0 / delta);
+    if (radar->pulseClock) {
+        RKClockSetDxDu(radar->pulseClock, 1.0 / delta);
+    }
 }
 
 void RKSetPositionTicsPerSeconds(RKRadar *radar, const double delta) {
-    RKClockSetDxDu(radar->positionClock, 1.0 / delta);
+    if (radar->positionClock) {
+        RKClockSetDxDu(radar->positionClock, 1.0 / delta);
+    }
 }
 
 // int RKSetFilterArrayInit(RKRadar *radar, void (*callback)(RKCompressionScratch *)) {
@@ -2247,8 +2251,12 @@ int RKSoftRestart(RKRadar *radar) {
 }
 
 int RKResetClocks(RKRadar *radar) {
-    RKClockReset(radar->pulseClock);
-    RKClockReset(radar->positionClock);
+    if (radar->pulseClock) {
+        RKClockReset(radar->pulseClock);
+    }
+    if (radar->positionClock) {
+        RKClockReset(radar->positionClock);
+    }
     return RKResultSuccess;
 }
 
@@ -3032,18 +3040,23 @@ RKPulse *RKGetVacantPulse(RKRadar *radar) {
 }
 
 void RKSetPulseHasData(RKRadar *radar, RKPulse *pulse) {
-    if (pulse->header.i == 0) {
+    if (pulse->header.i == 0 && radar->pulseClock) {
         RKClockReset(radar->pulseClock);
     }
     if (pulse->header.timeDouble == 0.0 && pulse->header.time.tv_sec == 0) {
-        pulse->header.timeDouble = RKClockGetTime(radar->pulseClock, (double)pulse->header.t, &pulse->header.time);
+        if (radar->pulseClock) {
+            pulse->header.timeDouble = RKClockGetTime(radar->pulseClock, (double)pulse->header.t, &pulse->header.time);
+        } else {
+            gettimeofday(&pulse->header.time, NULL);
+            pulse->header.timeDouble = (double)pulse->header.time.tv_sec + 1.0e-6 * (double)pulse->header.time.tv_usec;
+        }
     }
     if (pulse->header.gateCount > pulse->header.capacity) {
         RKLog("Error. gateCount = %s > capacity = %s\n",
               RKIntegerToCommaStyleString(pulse->header.gateCount), RKIntegerToCommaStyleString(pulse->header.capacity));
         pulse->header.gateCount = pulse->header.capacity;
     }
-    if ((radar->desc.initFlags & RKInitFlagShowClockOffset) && (pulse->header.i % 100 == 0)) {
+    if ((radar->desc.initFlags & RKInitFlagShowClockOffset) && (pulse->header.i % 100 == 0) && radar->pulseClock) {
         struct timeval t;
         gettimeofday(&t, NULL);
         printf("           %+14.4f %+14.4f @ \033[38;5;118mpulse\033[0m    x0 = %10.4f  u0 = %10.0f  dx/du = %.3e\n", pulse->header.timeDouble,
-- 
2.43.0


From b79f5f062ee3531bdb34e5fee84e175f60376f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 159/240] fix: skip the compression of a pulse that is shorter
 than its filters

---
 source/RKPulseEngine.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index c1e92f1..3057ed4 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -151,6 +151,19 @@ static void RKEngineShowBuffer(fftwf_complex *in, const int n) {
 //         waveform == NULL ? "" : RKVariableInString("waveform->count", &waveform->count, RKValueTypeUInt8));
 // }
 
+// A pulse can only be compressed if it extends beyond the origins and the blind gates of all the filters in the group
+static bool pulseCoversFilters(RKPulseEngine *engine, RKPulse *pulse, const int gid) {
+    uint32_t blindGateCount = 0;
+    for (int j = 0; j < engine->filterCounts[gid]; j++) {
+        if (engine->filterAnchors[gid][j].inputOrigin >= pulse->header.gateCount ||
+            engine->filterAnchors[gid][j].outputOrigin >= pulse->header.gateCount) {
+            return false;
+        }
+        blindGateCount += engine->filterAnchors[gid][j].length;
+    }
+    return blindGateCount <= pulse->header.gateCount;
+}
+
 void RKBuiltInCompressor(RKUserModule _Nullable ignore, RKCompressionScratch *scratch) {
 
     int i, p;
@@ -448,7 +461,7 @@ static void *pulseEngineCore(void *_in) {
         pulse->parameters.gid = gid;
 
         // Now we compress / skip
-        if (gid < 0 || gid >= engine->filterGroupCount || engine->state & RKEngineStateMemoryChange) {
+        if (gid < 0 || gid >= engine->filterGroupCount || engine->state & RKEngineStateMemoryChange || !pulseCoversFilters(engine, pulse, gid)) {
             blindGateCount = 0;
             for (j = 0; j < engine->filterCounts[0]; j++) {
                 blindGateCount += engine->filterAnchors[0][j].length;
@@ -460,7 +473,7 @@ static void *pulseEngineCore(void *_in) {
             pulse->parameters.filterCounts[0] = 0;
             pulse->parameters.filterCounts[1] = 0;
             pulse->header.pulseWidthSampleCount = blindGateCount;
-            pulse->header.gateCount += 1 - blindGateCount;
+            pulse->header.gateCount -= MIN(pulse->header.gateCount, blindGateCount - 1);
             pulse->header.s |= RKPulseStatusSkipped;
             if (engine->verbose > 1) {
                 RKLog("%s pulse skipped. header->i = %d   gid = %d\n", me->name, pulse->header.i, gid);
@@ -691,9 +704,12 @@ static void *pulseWatcher(void *_in) {
             // Compute the filter group id to use
             engine->filterGid[k] = (gid = pulse->header.i % engine->filterGroupCount);
             //printf("pulse->header.i = %d   gid = %d\n", (uint32_t)pulse->header.i, gid);
+            if (!pulseCoversFilters(engine, pulse, gid)) {
+                engine->filterGid[k] = -1;
+            }
 
             // Find the right plan and increase the use count, assuming the compressor will use it
-            for (j = 0; j < engine->filterCounts[gid]; j++) {
+            for (j = 0; j < engine->filterCounts[gid] && engine->filterGid[k] >= 0; j++) {
                 planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
                                                                  engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
                 engine->planIndices[k][j] = planIndex;
@@ -909,9 +925,12 @@ static void *pulseWatcherV1(void *_in) {
             // Compute the filter group id to use
             engine->filterGid[k] = (gid = pulse->header.i % engine->filterGroupCount);
             //printf("pulse->header.i = %d   gid = %d\n", (uint32_t)pulse->header.i, gid);
+            if (!pulseCoversFilters(engine, pulse, gid)) {
+                engine->filterGid[k] = -1;
+            }
 
             // Find the right plan and increase the use count, assuming the compressor will use it
-            for (j = 0; j < engine->filterCounts[gid]; j++) {
+            for (j = 0; j < engine->filterCounts[gid] && engine->filterGid[k] >= 0; j++) {
                 planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
                                                                  engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
                 engine->planIndices[k][j] = planIndex;
-- 
2.43.0


From ea2a9e15b8b885bea62297d5eb4577834730c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 160/240] fix: run the test pedestal without a steer engine

---
 source/RKTest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKTest.c b/source/RKTest.c
index 3ee49ed..e42aa4c 100644
--- a/source/RKTest.c
+++ b/source/RKTest.c
@@ -4857,7 +4857,7 @@ void *RKTestPedestalRunLoop(void *input) {
         //RKSteerEngineUpdatePositionFlags(steeven, position);
 
         // Get the latest action, could be no action
-        RKScanAction *action = RKSteerEngineGetAction(steeven, position);
+        RKScanAction *action = steeven ? RKSteerEngineGetAction(steeven, position) : NULL;
 
         // RKLog("%s EL%5.2f @ %5.2f °/s   AZ%5.2f @ %5.2f °/s    action = '%s%s%s'\n", pedestal->name,
         //     position->elevationDegrees, position->elevationVelocityDegreesPerSecond,
@@ -4869,7 +4869,7 @@ void *RKTestPedestalRunLoop(void *input) {
         // Translate action into string command. This is only necessary in RKTestPedestal. Pedzy can natively ingest RKScanAction
         char axis = 'e';
         char string[64];
-        for (k = 0; k < 2; k++) {
+        for (k = 0; action && k < 2; k++) {
             RKPedestalInstructType instruct = action->mode[k];
             float value = action->value[k];
             if (RKInstructIsNone(instruct)) {
-- 
2.43.0


From 4922dadc15b76f749280d7ea5eb1a83bae7f4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 161/240] fix: make rays without gates

---
 source/RKScratch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index e04e884..266d244 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -424,7 +424,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
 
     // Simple despeckling: censor the current cell if the next cell is censored
     mask = scratch->mask;
-    for (k = 0; k < MIN(scratch->capacity, scratch->gateCount) - 1; k++) {
+    for (k = 0; k + 1 < MIN(scratch->capacity, scratch->gateCount); k++) {
         if (!(*(mask + 1) & RKCellMaskKeepH)) {
             *mask &= ~RKCellMaskKeepH;
         }
-- 
2.43.0


From 23c8f74a836ed7aa785d18c4a7a08606aae473d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 162/240] fix: compress with the plan for the filter in use

---
 source/RKPulseEngine.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 3057ed4..8b46ac9 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -164,6 +164,11 @@ static bool pulseCoversFilters(RKPulseEngine *engine, RKPulse *pulse, const int
     return blindGateCount <= pulse->header.gateCount;
 }
 
+// The plan that is large enough for the part of the pulse that a filter uses
+static unsigned int planIndexForFilter(RKPulse *pulse, const RKFilterAnchor *anchor) {
+    return (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - anchor->inputOrigin, anchor->maxDataLength + anchor->length)));
+}
+
 void RKBuiltInCompressor(RKUserModule _Nullable ignore, RKCompressionScratch *scratch) {
 
     int i, p;
@@ -309,6 +314,7 @@ static void *pulseEngineCore(void *_in) {
     const int ci = engine->radarDescription->initFlags & RKInitFlagManuallyAssignCPU ? engine->coreOrigin + c : -1;
 
     uint32_t blindGateCount = 0;
+    RKFilterAnchor anchor;
 
     // Find the semaphore
     sem_t *sem = sem_open(me->semaphoreName, O_RDWR);
@@ -482,14 +488,18 @@ static void *pulseEngineCore(void *_in) {
             // Go through all the filters in this filter group
             blindGateCount = 0;
             for (j = 0; j < engine->filterCounts[gid]; j++) {
-                // Get the plan index and size from parent engine
-                planIndex = engine->planIndices[i0][j];
-                blindGateCount += engine->filterAnchors[gid][j].length;
+                // The waveform may have been changed since the watcher inspected this pulse
+                anchor = engine->filterAnchors[gid][j];
+                blindGateCount += anchor.length;
+                if (anchor.inputOrigin >= pulse->header.gateCount || anchor.outputOrigin >= pulse->header.gateCount) {
+                    continue;
+                }
+                planIndex = planIndexForFilter(pulse, &anchor);
 
                 // Compression
                 scratch->pulse = pulse;
                 scratch->filter = engine->filters[gid][j];
-                scratch->filterAnchor = &engine->filterAnchors[gid][j];
+                scratch->filterAnchor = &anchor;
                 scratch->planIndex = planIndex;
                 scratch->waveformGroupdId = gid;
                 scratch->waveformFilterId = j;
@@ -511,7 +521,7 @@ static void *pulseEngineCore(void *_in) {
                 RKLog("-- %d --> %d\n", pulse->header.gateCount, pulse->header.gateCount - blindGateCount);
             }
             #endif
-            pulse->header.gateCount += 1 - blindGateCount;
+            pulse->header.gateCount -= MIN(pulse->header.gateCount, blindGateCount - 1);
             pulse->header.s |= RKPulseStatusCompressed;
         }
 
@@ -710,8 +720,7 @@ static void *pulseWatcher(void *_in) {
 
             // Find the right plan and increase the use count, assuming the compressor will use it
             for (j = 0; j < engine->filterCounts[gid] && engine->filterGid[k] >= 0; j++) {
-                planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
-                                                                 engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
+                planIndex = planIndexForFilter(pulse, &engine->filterAnchors[gid][j]);
                 engine->planIndices[k][j] = planIndex;
                 engine->fftModule->plans[planIndex].count++;
             }
@@ -931,8 +940,7 @@ static void *pulseWatcherV1(void *_in) {
 
             // Find the right plan and increase the use count, assuming the compressor will use it
             for (j = 0; j < engine->filterCounts[gid] && engine->filterGid[k] >= 0; j++) {
-                planIndex = (unsigned int)ceilf(log2f((float)MIN(pulse->header.gateCount - engine->filterAnchors[gid][j].inputOrigin,
-                                                                 engine->filterAnchors[gid][j].maxDataLength + engine->filterAnchors[gid][j].length)));
+                planIndex = planIndexForFilter(pulse, &engine->filterAnchors[gid][j]);
                 engine->planIndices[k][j] = planIndex;
                 engine->fftModule->plans[planIndex].count++;
             }
-- 
2.43.0


From 77361b1ebd97b50d64b544233d19a7e76d07fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:57 +0000
Subject: [PATCH 163/240] fix: keep the configuration of the user when its
 buffer has been filled a whole number of times

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index a581663..a475512 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1870,7 +1870,7 @@ int RKGoLive(RKRadar *radar) {
     radar->memoryUsage = RKGetRadarMemoryUsage(radar);
 
     // Add a dummy config to get things started if there hasn't been one from the user
-    if (radar->configIndex == 0) {
+    if ((int64_t)RKGetLatestConfig(radar)->i < 1000) {
         RKAddConfig(radar,
                     RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
-- 
2.43.0


From 1f4f5708441d1bc107ba9ae102de2e29cc79a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 164/240] fix: resolve the hosts to ping with functions that
 the pingers can share

---
 source/RKHostMonitor.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/RKHostMonitor.c b/source/RKHostMonitor.c
index 8ba8592..7ad73f7 100644
--- a/source/RKHostMonitor.c
+++ b/source/RKHostMonitor.c
@@ -82,7 +82,6 @@ static void *hostPinger(void *in) {
 
     const int c = me->id;
     const int value = 50;
-    struct protoent *protocol = getprotobyname("ICMP");
 
     void *buff = malloc(RKHostMonitorPacketSize);
     if (buff == NULL) {
@@ -121,22 +120,21 @@ static void *hostPinger(void *in) {
     }
 
     // Resolve my host
-    pthread_mutex_lock(&engine->mutex);
-    struct hostent *hostname = gethostbyname(engine->hosts[c]);
-    pthread_mutex_unlock(&engine->mutex);
-    if (hostname == NULL) {
+    struct addrinfo hints, *hostname = NULL;
+    memset(&hints, 0, sizeof(struct addrinfo));
+    hints.ai_family = AF_INET;
+    if (getaddrinfo(engine->hosts[c], NULL, &hints, &hostname) || hostname == NULL) {
         RKLog("%s %s Error. Unable to resolve %s.", engine->name, me->name, engine->hosts[c]);
         me->hostStatus = RKHostStatusUnknown;
         me->tic = 2;
         free(buff);
         return NULL;
     }
-    memset(&targetAddress, 0, sizeof(struct sockaddr_in));
-    targetAddress.sin_family = hostname->h_addrtype;
-    targetAddress.sin_addr.s_addr = *(unsigned int *)hostname->h_addr;
+    memcpy(&targetAddress, hostname->ai_addr, sizeof(struct sockaddr_in));
+    freeaddrinfo(hostname);
 
     // Open a socket, set some properties for ICMP
-    if ((sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto)) < 0) {
+    if ((sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_ICMP)) < 0) {
         RKLog("%s %s Error. Unable to open a socket.  sd = %d   errno = %d (%s)\n", engine->name, me->name, sd, errno, RKErrnoString(errno));
         if (errno == EACCES) {
             RKLog(">%s %s Info. Use one of the following:\n", engine->name, me->name);
@@ -226,7 +224,7 @@ static void *hostPinger(void *in) {
                 unreachCount = 0;
                 RKLog("%s %s Reinitiating socket descriptor ...\n", engine->name, me->name);
                 close(sd);
-                sd = socket(AF_INET, SOCK_DGRAM, protocol->p_proto);
+                sd = socket(AF_INET, SOCK_DGRAM, IPPROTO_ICMP);
                 setsockopt(sd, IPPROTO_IP, IP_TTL, &value, sizeof(value));
                 fcntl(sd, F_SETFL, O_NONBLOCK);
             }
@@ -266,7 +264,7 @@ static void *hostPinger(void *in) {
                 }
                 if (r == txSize) {
                     offset = 0;
-                } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == protocol->p_proto) {
+                } else if (r > sizeof(RKIPV4Header) + sizeof(RKICMPHeader) && ipv4Header->protocol == IPPROTO_ICMP) {
                     ipHeaderLength = (ipv4Header->versionAndHeaderLength & 0x0f) * sizeof(uint32_t);
                     if (r >= ipHeaderLength + sizeof(RKICMPHeader)) {
                         offset = ipHeaderLength;
-- 
2.43.0


From 1eb46bf1907a23aa5e9615d54b39b7bbd72e54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 165/240] fix: answer a command to a device that is not there
 instead of calling nothing

---
 source/RKRadar.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index a475512..8f07e81 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2618,6 +2618,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                     do {
                         k++;
                     } while (commandString[k] == ' ');
+                    if (radar->healthRelay == NULL) {
+                        if (string) {
+                            sprintf(string, "NAK. Health relay not set." RKEOL);
+                        }
+                        break;
+                    }
                     radar->healthRelayExec(radar->healthRelay, commandString + k, string == NULL ? message : string);
                 }
                 break;
@@ -2634,6 +2640,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                 do {
                     k++;
                 } while (commandString[k] == ' ');
+                if (radar->pedestal == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. Pedestal not set." RKEOL);
+                    }
+                    break;
+                }
                 radar->pedestalExec(radar->pedestal, commandString + k, string == NULL ? message : string);
                 break;
 
@@ -2649,6 +2661,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                 do {
                     k++;
                 } while (commandString[k] == ' ');
+                if (radar->transceiver == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. Transceiver not set." RKEOL);
+                    }
+                    break;
+                }
                 radar->transceiverExec(radar->transceiver, commandString + k, string == NULL ? message : string);
                 break;
 
@@ -2679,6 +2697,12 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                 break;
 
             case 'v':  // VCP stuff
+                if (radar->steerEngine == NULL) {
+                    if (string) {
+                        sprintf(string, "NAK. Steer engine not set." RKEOL);
+                    }
+                    break;
+                }
                 k = 0;
                 do {
                     k++;
@@ -2695,7 +2719,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         sprintf(string, "NAK. Not ready." RKEOL);
                     }
                 } else {
-                    radar->masterControllerExec(radar->masterController, commandString, string);
+                    radar->masterControllerExec(radar->masterController, commandString, string == NULL ? message : string);
                 }
                 break;
 
-- 
2.43.0


From f04aee02198b259eb71e95d1855c32d3d9dc67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 166/240] fix: read the parameter of a DSP command from behind
 its letter when a space comes before it

---
 source/RKRadar.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 8f07e81..b98026f 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2272,6 +2272,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
     RKFilterType filterType;
     uint32_t u32;
     int ival;
+    const char *parameter;
 
     RKConfig *config = RKGetLatestConfig(radar);
 
@@ -2288,7 +2289,8 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
         switch (commandString[0]) {
             case 'd':
                 // DSP related
-                switch (commandString[commandString[1] == ' ' ? 2 : 1]) {
+                parameter = commandString + (commandString[1] == ' ' ? 3 : 2);
+                switch (parameter[-1]) {
                     case 'c':
                         RKClearPulseBuffer(radar->pulses, radar->desc.pulseBufferDepth);
                         RKClearRayBuffer(radar->rays, radar->desc.rayBufferDepth);
@@ -2298,7 +2300,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'f':
                         // 'df' - DSP filter
-                        k = sscanf(&commandString[2], "%d %u", &ival, &u32);
+                        k = sscanf(parameter, "%d %u", &ival, &u32);
                         if (k == 2) {
                             filterType = ival;
                             RKLog("type = %u   u32 = %u\n", filterType, u32);
@@ -2328,7 +2330,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'm':
                         // 'dm' - DSP moment method
-                        k = sscanf(&commandString[2], "%d", &ival);
+                        k = sscanf(parameter, "%d", &ival);
                         if (k == 1) {
                             switch (ival) {
                                 case 1:
@@ -2380,7 +2382,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'n':
                         // 'dn' - DSP noise override
-                        k = sscanf(&commandString[2], "%lf %lf", &fval1, &fval2);
+                        k = sscanf(parameter, "%lf %lf", &fval1, &fval2);
                         if (k == 2) {
                             RKAddConfig(radar, RKConfigKeySystemNoise, fval1, fval2, RKConfigKeyNull);
                             if (string) {
@@ -2403,7 +2405,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         }
                         break;
                     case 'q':
-                        k = sscanf(&commandString[2], "%lf", &fval1);
+                        k = sscanf(parameter, "%lf", &fval1);
                         if (k == 1) {
                             RKAddConfig(radar, RKConfigKeySQIThreshold, fval1, RKConfigKeyNull);
                             if (string) {
@@ -2417,7 +2419,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         // 'ds' - DSP threshold in SNR dB
                     case 't':
                         // 'dt' - DSP threshold in SNR dB
-                        k = sscanf(&commandString[2], "%lf", &fval1);
+                        k = sscanf(parameter, "%lf", &fval1);
                         if (k == 1) {
                             RKAddConfig(radar, RKConfigKeySNRThreshold, fval1, RKConfigKeyNull);
                             if (string) {
-- 
2.43.0


From 64675e71523985863e34763e621ad01f36c9a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 167/240] fix: name the moment processor that has been set

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index b98026f..30302a2 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2354,7 +2354,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                                 case 4:
                                     RKSetMomentProcessorToMultiLag(radar, 4);
                                     if (string) {
-                                        sprintf(string, "ACK. Moment processor set to MultiLag-3." RKEOL);
+                                        sprintf(string, "ACK. Moment processor set to MultiLag-4." RKEOL);
                                     }
                                     break;
                                 case 5:
-- 
2.43.0


From ada7c75af0105f598297902af93f696e530d7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 168/240] fix: refuse ring filter types that are not there

---
 source/RKRadar.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 30302a2..9798f98 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1752,6 +1752,10 @@ int RKSetProductRecorder(RKRadar *radar, int (*productRecorder)(RKProduct *, con
 }
 
 int RKSetPulseRingFilterByType(RKRadar *radar, RKFilterType type, const uint32_t gateCount) {
+    if (((int)type < RKFilterTypeNull || type >= RKFilterTypeCount) && type != RKFilterTypeTest1) {
+        RKLog("Error. No ring filter of type %d.\n", type);
+        return RKResultFailedToSetFilter;
+    }
     RKIIRFilter *filter = (RKIIRFilter *)malloc(sizeof(RKIIRFilter));
     if (filter == NULL) {
         RKLog("Error. Unable to allocate a filter.\n");
@@ -2301,14 +2305,17 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                     case 'f':
                         // 'df' - DSP filter
                         k = sscanf(parameter, "%d %u", &ival, &u32);
-                        if (k == 2) {
+                        if (k == 2 && ival != RKFilterTypeNull) {
                             filterType = ival;
                             RKLog("type = %u   u32 = %u\n", filterType, u32);
-                            RKSetPulseRingFilterByType(radar, filterType, u32);
-                            if (string) {
+                            if (RKSetPulseRingFilterByType(radar, filterType, u32) != RKResultSuccess) {
+                                if (string) {
+                                    sprintf(string, "NAK. No ring filter %d." RKEOL, ival);
+                                }
+                            } else if (string) {
                                 sprintf(string, "ACK. Ring filter %u gateCount %s." RKEOL, filterType, RKIntegerToCommaStyleString(u32));
                             }
-                        } else if (k == 1) {
+                        } else if (k == 1 || k == 2) {
                             filterType = ival;
                             if ((RKFilterType)filterType == RKFilterTypeNull) {
                                 RKPulseRingFilterEngineDisableFilter(radar->pulseRingFilterEngine);
@@ -2316,8 +2323,11 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                                     sprintf(string, "ACK. Ring filter disabled." RKEOL);
                                 }
                             } else {
-                                RKSetPulseRingFilterByType(radar, filterType, 0);
-                                if (string) {
+                                if (RKSetPulseRingFilterByType(radar, filterType, 0) != RKResultSuccess) {
+                                    if (string) {
+                                        sprintf(string, "NAK. No ring filter %d." RKEOL, ival);
+                                    }
+                                } else if (string) {
                                     sprintf(string, "ACK. Ring filter %u." RKEOL, filterType);
                                 }
                             }
-- 
2.43.0


From 66575dcdf2f93b7872422ee719b9a41bbfb33fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 169/240] fix: answer every DSP command, and take noise in dB
 as the help says

---
 source/RKRadar.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9798f98..380828c 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2406,6 +2406,17 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         break;
                     case 'N':
                         // 'dN' - DSP noise override in dB
+                        k = sscanf(parameter, "%lf %lf", &fval1, &fval2);
+                        if (k == 2) {
+                            RKAddConfig(radar, RKConfigKeySystemNoise, pow(10.0, 0.1 * fval1), pow(10.0, 0.1 * fval2), RKConfigKeyNull);
+                            if (string) {
+                                sprintf(string, "ACK. Noise set to %.4f dB, %.4f dB" RKEOL, fval1, fval2);
+                            }
+                        } else if (k == -1 && string) {
+                            sprintf(string, "ACK. Current noise is %.4f dB %.4f dB" RKEOL, 10.0 * log10(config->noise[0]), 10.0 * log10(config->noise[1]));
+                        } else if (string) {
+                            sprintf(string, "NAK. Must have two paramters  (k = %d)." RKEOL, k);
+                        }
                         break;
                     case 'r':
                         // 'dr' - Restart DSP engines
@@ -2440,6 +2451,9 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         }
                         break;
                     default:
+                        if (string) {
+                            snprintf(string, RKMaximumStringLength, "NAK. Unknown DSP command '%s'." RKEOL, commandString);
+                        }
                         break;
                 }
                 break;
-- 
2.43.0


From 3194c33afb62d086d405b1413766bee117d49902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:52 +0000
Subject: [PATCH 170/240] fix: free the old filter once when two operators set
 the filter at the same time

---
 source/RKRadar.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 380828c..44fa953 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1772,13 +1772,13 @@ int RKSetPulseRingFilter(RKRadar *radar, RKIIRFilter *filter, const uint32_t gat
     if (filter == NULL) {
         return RKResultFailedToSetFilter;
     }
-    RKIIRFilter *oldFilter = radar->filter;
-    radar->filter = (RKIIRFilter *)malloc(sizeof(RKIIRFilter));
-    if (radar->filter == NULL) {
+    RKIIRFilter *newFilter = (RKIIRFilter *)malloc(sizeof(RKIIRFilter));
+    if (newFilter == NULL) {
         RKLog("Error. Unable to allocate filter.\n");
         return RKResultFailedToSetFilter;
     }
-    memcpy(radar->filter, filter, sizeof(RKIIRFilter));
+    memcpy(newFilter, filter, sizeof(RKIIRFilter));
+    RKIIRFilter *oldFilter = __sync_lock_test_and_set(&radar->filter, newFilter);
     if (radar->desc.initFlags & RKInitFlagVeryVerbose) {
         RKLog("Filter '%s' cached.\n", filter->name);
     }
-- 
2.43.0


From dee1a848a8467b3850c7af135d3d5b86c5da8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 171/240] fix: refuse ring filter types too large for a filter
 type

---
 source/RKRadar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 44fa953..9cb1495 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2308,7 +2308,7 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                         if (k == 2 && ival != RKFilterTypeNull) {
                             filterType = ival;
                             RKLog("type = %u   u32 = %u\n", filterType, u32);
-                            if (RKSetPulseRingFilterByType(radar, filterType, u32) != RKResultSuccess) {
+                            if (filterType != ival || RKSetPulseRingFilterByType(radar, filterType, u32) != RKResultSuccess) {
                                 if (string) {
                                     sprintf(string, "NAK. No ring filter %d." RKEOL, ival);
                                 }
@@ -2317,13 +2317,13 @@ int RKExecuteCommand(RKRadar *radar, const char *commandString, char * _Nullable
                             }
                         } else if (k == 1 || k == 2) {
                             filterType = ival;
-                            if ((RKFilterType)filterType == RKFilterTypeNull) {
+                            if (ival == RKFilterTypeNull) {
                                 RKPulseRingFilterEngineDisableFilter(radar->pulseRingFilterEngine);
                                 if (string) {
                                     sprintf(string, "ACK. Ring filter disabled." RKEOL);
                                 }
                             } else {
-                                if (RKSetPulseRingFilterByType(radar, filterType, 0) != RKResultSuccess) {
+                                if (filterType != ival || RKSetPulseRingFilterByType(radar, filterType, 0) != RKResultSuccess) {
                                     if (string) {
                                         sprintf(string, "NAK. No ring filter %d." RKEOL, ival);
                                     }
-- 
2.43.0


From 92eafc33d321f6dd16d48ba730508a138629d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 172/240] fix: answer the commands of a client that has no
 radar instead of waiting forever

---
 source/RKCommandCenter.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..9f94904 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -120,13 +120,8 @@ int socketCommandHandler(RKOperator *O) {
             }
             // There is no need to send a response. The delegate function socketStreamHandler sends a beacon periodically
         } else if (user->radar == NULL) {
-            k = 0;
-            while (user->radar == NULL) {
-                usleep(100000);
-                if (++k % 10 == 0 && engine->verbose > 1) {
-                    RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
-                }
-            }
+            sprintf(user->commandResponse, "NAK. No radar." RKEOL);
+            RKOperatorSendCommandResponse(O, user->commandResponse);
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
             while (!(user->radar->state & RKRadarStateLive)) {
@@ -1577,7 +1572,7 @@ int socketTerminateHandler(RKOperator *O) {
     user->streams = RKStreamNull;
     RKLog(">%s %s Disconnected.\n", engine->name, O->name);
     for (k = 0; k < user->productCount; k++) {
-        if (user->productIds[k]) {
+        if (user->productIds[k] && user->radar) {
             RKSweepEngineUndescribeProduct(user->radar->sweepEngine, user->productIds[k]);
             user->productIds[k] = 0;
         }
-- 
2.43.0


From c037000e5855679350e45991d39dba8119b84fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 173/240] fix: do not keep a client that has left or a server
 that is stopping waiting for the radar

---
 source/RKCommandCenter.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 9f94904..46ece86 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -125,6 +125,9 @@ int socketCommandHandler(RKOperator *O) {
         } else if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
             k = 0;
             while (!(user->radar->state & RKRadarStateLive)) {
+                if (O->state != RKOperatorStateActive || engine->server->state != RKServerStateActive) {
+                    return 0;
+                }
                 usleep(100000);
                 if (++k % 10 == 0 && engine->verbose > 1) {
                     RKLog("%s sleep 1/%.1f s   radar->state = 0x%04x\n", engine->name, (float)k * 0.1f, user->radar->state);
@@ -199,7 +202,7 @@ int socketCommandHandler(RKOperator *O) {
                             uint64_t tic = user->tic;
                             do {
                                 usleep(100000);
-                            } while (tic == user->tic);
+                            } while (tic == user->tic && O->state == RKOperatorStateActive && engine->server->state == RKServerStateActive);
 
                             RKLog("%s %s Skipping to current ...", engine->name, O->name);
                             RKCommandCenterSkipToCurrent(engine, user->radar);
@@ -1703,6 +1706,11 @@ void RKCommandCenterSkipToCurrent(RKCommandCenter *engine, RKRadar *radar) {
     while (radar->pulseEngine->tic <= (2 * radar->pulseEngine->coreCount + 1) ||
            radar->rayIndex < 2 * radar->momentEngine->coreCount ||
            radar->healthEngine->tic < 2) {
+        // There may be nothing to come, or nobody to wait for
+        if (s >= 200 || engine->server->state != RKServerStateActive) {
+            RKLog("%s Not all data have been resumed.\n", engine->name);
+            break;
+        }
         if (++s % 10 == 0 && engine->verbose > 1) {
             RKLog("%s Sleep 1/%.1f s    %d / %d / %d\n", engine->name, 0.01f * s,
                   radar->pulseEngine->tic,
-- 
2.43.0


From 642c5dd3d1d5ae31e858d2d20b5437a4cb64d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 174/240] fix: keep the products of a client within their
 number, and their symbols terminated

---
 source/RKCommandCenter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 46ece86..ba463fc 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -285,6 +285,11 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'u':
                     // Turn this user into an active node with user product return
+                    if (user->productCount >= RKMaximumProductCount) {
+                        sprintf(user->commandResponse, "NAK. Too many products." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
@@ -296,7 +301,7 @@ int socketCommandHandler(RKOperator *O) {
                         //         user->productDescriptions[user->productCount].key,
                         //         user->productDescriptions[user->productCount].symbol,
                         //         user->productIds[user->productCount]);
-                        strncpy(symbol, user->productDescriptions[user->productCount].symbol, 7);
+                        snprintf(symbol, sizeof(symbol), "%s", user->productDescriptions[user->productCount].symbol);
                         snprintf(user->commandResponse, RKMaximumCommandLength, "ACK. {\"type\": \"productDescription\", \"key\":%u, \"symbol\":\"%s\", \"pid\":%u}" RKEOL,
                                 user->productDescriptions[user->productCount].key,
                                 symbol,
-- 
2.43.0


From 229fbe570fa6027e8cfd56bdc906b63233385070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 175/240] fix: do not change the delimiter of the streams while
 answering a command

---
 source/RKCommandCenter.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ba463fc..d3f5e2c 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -106,6 +106,7 @@ int socketCommandHandler(RKOperator *O) {
     RKStripTail(commandString);
 
     RKStream stream;
+    RKNetDelimiter delimiter;
 
     while (commandString != NULL) {
         if ((commandStringEnd = strchr(commandString, ';')) != NULL) {
@@ -224,9 +225,10 @@ int socketCommandHandler(RKOperator *O) {
                     break;
 
                 case 'i':
-                    O->delimTx.type = RKNetworkPacketTypeRadarDescription;
-                    O->delimTx.size = (uint32_t)sizeof(RKRadarDesc);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeRadarDescription;
+                    delimiter.size = (uint32_t)sizeof(RKRadarDesc);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
                     break;
 
                 case 'q':
@@ -332,9 +334,10 @@ int socketCommandHandler(RKOperator *O) {
                 case 'a':
                     RKLog("%s %s Queue command '%s' to relay.\n", engine->name, O->name, commandString);
                     RKRadarRelayExec(user->radar->radarRelay, commandString, user->commandResponse);
-                    O->delimTx.type = RKNetworkPacketTypeControls;
-                    O->delimTx.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeControls;
+                    delimiter.size = (uint32_t)strlen(user->commandResponse);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)delimiter.size, NULL);
 
                 case 'r':
                     // Change radar
-- 
2.43.0


From 92bae35a937eec27eaec9f07d2fed50162b7847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 176/240] fix: tell the client of a relay which radar it
 selected, and only when it did

---
 source/RKCommandCenter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d3f5e2c..0c68525 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -338,10 +338,12 @@ int socketCommandHandler(RKOperator *O) {
                     delimiter.type = RKNetworkPacketTypeControls;
                     delimiter.size = (uint32_t)strlen(user->commandResponse);
                     RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, (ssize_t)delimiter.size, NULL);
+                    break;
 
                 case 'r':
                     // Change radar
-                    sscanf("%s", commandString + 1, sval1);
+                    sval1[0] = '\0';
+                    sscanf(commandString + 1, "%s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
-- 
2.43.0


From ec75a04c28a0161702561f7708b86384731f8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 177/240] fix: send the header of the ray with its products

---
 source/RKCommandCenter.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 0c68525..39a1c0f 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -905,12 +905,12 @@ int socketStreamHandler(RKOperator *O) {
                 uint32_t productCount = __builtin_popcount(productList);
                 //RKLog("ProductCount = %d / %x\n", productCount, productList);
 
-                rayHeader.gateCount /= user->rayDownSamplingRatio;
-                rayHeader.gateSizeMeters *= (float)user->rayDownSamplingRatio;
+                rayHeaderV1.gateCount /= user->rayDownSamplingRatio;
+                rayHeaderV1.gateSizeMeters *= (float)user->rayDownSamplingRatio;
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
-                O->delimTx.size = (uint32_t)(sizeof(RKRayHeader) + productCount * rayHeader.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -935,7 +935,7 @@ int socketStreamHandler(RKOperator *O) {
                         productList ^= RKBaseProductListFloatK;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexK);
                     } else if (productList & RKBaseProductListFloatQ) {
-                        productList ^= RKBaseProductListFloatK;
+                        productList ^= RKBaseProductListFloatQ;
                         f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
                     } else if (productList & RKBaseProductListFloatSh) {
                         productList ^= RKBaseProductListFloatSh;
@@ -948,10 +948,10 @@ int socketStreamHandler(RKOperator *O) {
                     }
                     if (f32Data) {
                         float *lowRateData = (float *)user->string;
-                        for (i = 0, k = 0; i < rayHeader.gateCount; i++, k += user->rayDownSamplingRatio) {
+                        for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeader.gateCount * sizeof(float), NULL);
+                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
                     }
                 }
                 ray->header.s |= RKRayStatusStreamed;
-- 
2.43.0


From 6908f6e479d0283c12af5d72d2994b8e55a44fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 178/240] fix: send all the display data that the header of the
 ray lists

---
 source/RKCommandCenter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 39a1c0f..52c343d 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -963,7 +963,7 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->streamsInProgress);
             }
         }
-    } else if (user->streams & user->access & RKStreamDisplayZVWDPRKS) {
+    } else if (user->streams & user->access & RKStreamDisplayAll) {
         #pragma mark Display Streams
         // Display streams - no skipping
         if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
@@ -980,8 +980,8 @@ int socketStreamHandler(RKOperator *O) {
         }
         ray = RKGetRayFromBuffer(user->radar->rays, endIndex);
 
-        if (!(user->streamsInProgress & RKStreamDisplayZVWDPRKS)) {
-            user->streamsInProgress |= (user->streams & RKStreamDisplayZVWDPRKS);
+        if (!(user->streamsInProgress & RKStreamDisplayAll)) {
+            user->streamsInProgress |= (user->streams & RKStreamDisplayAll);
             user->rayIndex = endIndex;
             s = 0;
             while (!(ray->header.s & RKRayStatusReady) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -1035,7 +1035,7 @@ int socketStreamHandler(RKOperator *O) {
                 if (user->streams & RKStreamDisplaySv) {
                     rayHeaderV1.baseProductList |= RKBaseProductListUInt8Sv;
                 }
-                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPR;
+                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPRKSQ;
                 uint32_t displayCount = __builtin_popcount(displayList);
                 //RKLog("displayCount = %d / %x\n", productCount, productList);
 
@@ -1097,7 +1097,7 @@ int socketStreamHandler(RKOperator *O) {
                       engine->name, O->name, user->rayIndex, endIndex, ray->header.i);
             }
         } // if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) ...
-    } // else if if (user->streams & user->access & RKStreamDisplayZVWDPRKS) ...
+    } // else if if (user->streams & user->access & RKStreamDisplayAll) ...
 
     // Sweep
     #pragma mark Sweep
-- 
2.43.0


From 9e399a1b4d25627c13a45eb30abf76b1456fd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 179/240] fix: send each ray of a stream as a whole, so that
 nothing comes between its header and data

---
 source/RKCommandCenter.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 52c343d..5009980 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -910,8 +910,8 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
+                size = 0;
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
                         productList ^= RKBaseProductListFloatZ;
@@ -947,13 +947,14 @@ int socketStreamHandler(RKOperator *O) {
                         f32Data = NULL;
                     }
                     if (f32Data) {
-                        float *lowRateData = (float *)user->string;
+                        float *lowRateData = (float *)(user->string + size);
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
+                        size += rayHeaderV1.gateCount * sizeof(float);
                     }
                 }
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             }
@@ -1044,8 +1045,8 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + displayCount * rayHeaderV1.gateCount * sizeof(uint8_t));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
+                size = 0;
                 for (j = 0; j < displayCount; j++) {
                     if (displayList & RKBaseProductListUInt8Z) {
                         displayList ^= RKBaseProductListUInt8Z;
@@ -1081,13 +1082,14 @@ int socketStreamHandler(RKOperator *O) {
                         u8Data = NULL;
                     }
                     if (u8Data) {
-                        uint8_t *lowRateData = (uint8_t *)user->string;
+                        uint8_t *lowRateData = (uint8_t *)(user->string + size);
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = u8Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(uint8_t), NULL);
+                        size += rayHeaderV1.gateCount * sizeof(uint8_t);
                     }
                 }
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             } // while (user->rayIndex != endIndex) ...
@@ -1227,8 +1229,8 @@ int socketStreamHandler(RKOperator *O) {
                         ray = sweep->rays[k];
                         memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                         rayHeader.baseProductList = sweepHeader.baseProductList;
-                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
                         productList = sweepHeader.baseProductList;
+                        i = 0;
                         if (engine->verbose > 1 && (k < 3 || k == sweepHeader.rayCount - 1)) {
                             RKLog(">%s %s k = %d   moments = %s   (%x)\n", engine->name, O->name, k, user->scratch + 1, productList);
                         }
@@ -1267,12 +1269,14 @@ int socketStreamHandler(RKOperator *O) {
                                 f32Data = NULL;
                             }
                             if (f32Data) {
-                                size += RKOperatorSendPackets(O, f32Data, sweep->header.gateCount * sizeof(float), NULL);
-                                user->timeLastOut = time;
+                                memcpy(user->string + i, f32Data, sweep->header.gateCount * sizeof(float));
+                                i += sweep->header.gateCount * sizeof(float);
                             } else if (k == 0) {
                                 RKLog("No data found %04Xh", productList);
                             }
                         } // for (j = 0; ...
+                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), user->string, (ssize_t)i, NULL);
+                        user->timeLastOut = time;
                     } // for (k = 0; ...
 
                     gettimeofday(&timevalTx, NULL);
-- 
2.43.0


From 4f931f5efc306b5cfaf71bf5deb1ff4a08a54b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 180/240] fix: stream only the rays that have been completed

---
 source/RKCommandCenter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 5009980..c55c7e3 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -866,6 +866,9 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                if (!(ray->header.s & RKRayStatusReady)) {
+                    break;
+                }
                 // Duplicate and send the header with only selected products
                 //memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 copyRayHeader(&rayHeaderV1, &ray->header);
@@ -1000,6 +1003,9 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                if (!(ray->header.s & RKRayStatusReady)) {
+                    break;
+                }
                 // Duplicate and send the header with only selected products
                 // memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 copyRayHeader(&rayHeaderV1, &ray->header);
-- 
2.43.0


From 29bf87a997efa7ad6446d2e8909a3a347807029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 181/240] fix: draw rays with fewer gates than columns, and do
 not wait for a ray with the lock held

---
 source/RKCommandCenter.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c55c7e3..3bad981 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -602,9 +602,9 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtZ) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
-            if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
+            if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = RKStreamASCIIArtZ;
-                user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
+                user->asciiArtStride = (uint16_t)MAX(1, (int)ray->header.gateCount / MAX(1, user->terminalSize.ws_col - 20));
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
                     RKLog("%s %s Streaming RKRay ASCII art -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
@@ -616,14 +616,13 @@ int socketStreamHandler(RKOperator *O) {
                 while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200) {
                     ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
                     if (!(ray->header.s & RKRayStatusReady)) {
-                        usleep(10000);
-                        continue;
+                        break;
                     }
                     k += sprintf(user->string + k, "%04d %5.2f %6.2f ", (int)(ray->header.i % 1000), ray->header.startElevation, ray->header.startAzimuth);
                     // Now we paint the ASCII art
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
                     j = -1;
-                    for (s = 0; s < MIN(ray->header.gateCount / user->asciiArtStride, (user->terminalSize.ws_col - 20)); s++) {
+                    for (s = 0; s < MIN((int)ray->header.gateCount / user->asciiArtStride, (user->terminalSize.ws_col - 20)); s++) {
                         // 20.0 dBZ --> (20.0) * 2 + 64 = 104 --> ((104) - 54) / 10 = 5.0 = 5
                         // 24.5 dBZ --> (24.5) * 2 + 64 = 113 --> ((113) - 54) / 10 = 5.9 = 5
                         // 25.0 dBZ --> (25.0) * 2 + 64 = 114 --> ((114) - 54) / 10 = 6.0 = 6
-- 
2.43.0


From fe0960d92a6f85b84a386760970cab79f1cbe17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 182/240] fix: send the end of line of the health text as a
 whole

---
 source/RKCommandCenter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 3bad981..5f9579d 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -825,9 +825,9 @@ int socketStreamHandler(RKOperator *O) {
             }
             if (j) {
                 // Take out the last '\n', replace it with somethign else + EOL
-                snprintf(user->string + k - 1, RKMaximumStringLength - k, "" RKEOL);
+                snprintf(user->string + k - 1, RKMaximumPacketSize - k, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypeHealth;
-                O->delimTx.size = k;
+                O->delimTx.size = k + 1;
                 RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
             }
         } else {
-- 
2.43.0


From 7774fe5b0e41bdf0a24bc459dd276165bc71d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 183/240] fix: stream the status text of radars without some of
 the engines

---
 source/RKCommandCenter.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 5f9579d..993b459 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -529,7 +529,7 @@ int socketStreamHandler(RKOperator *O) {
             k = snprintf(user->string, RKMaximumPacketSize, "%s %s %s %s %s" RKEOL,
                          RKPulseEngineStatusString(user->radar->pulseEngine),
                          RKPulseRingFilterEngineStatusString(user->radar->pulseRingFilterEngine),
-                         RKPositionEngineStatusString(user->radar->positionEngine),
+                         user->radar->positionEngine ? RKPositionEngineStatusString(user->radar->positionEngine) : "No position engine",
                          RKMomentEngineStatusString(user->radar->momentEngine),
                          RKRawDataRecorderStatusString(user->radar->rawDataRecorder));
             O->delimTx.type = RKNetworkPacketTypePlainText;
@@ -546,10 +546,10 @@ int socketStreamHandler(RKOperator *O) {
                         rkGlobalParameters.showColor ? RKGetBackgroundColorOfIndex(15) : "",
                         rkGlobalParameters.showColor ? RKNoColor : "");
                 k = snprintf(user->string, RKMaximumPacketSize, "%9s%s%9s%s%9s%s%9s%s%9s%s%9s\n",
-                             user->radar->positionEngine->name, spacer,
+                             user->radar->positionEngine ? user->radar->positionEngine->name : "", spacer,
                              user->radar->pulseEngine->name, spacer,
                              user->radar->momentEngine->name, spacer,
-                             user->radar->healthEngine->name, spacer,
+                             user->radar->healthEngine ? user->radar->healthEngine->name : "", spacer,
                              user->radar->sweepEngine->name, spacer,
                              user->radar->rawDataRecorder->name);
             } else {
@@ -562,7 +562,7 @@ int socketStreamHandler(RKOperator *O) {
                           "%04x - %02d         | "
                           "%04x - %04d       | "
                           "%04x - %s" RKEOL,
-                          user->radar->positionEngine->state & 0xFFFF,
+                          user->radar->positionEngine ? user->radar->positionEngine->state & 0xFFFF : 0,
                           user->radar->positionIndex,
                           user->radar->pulseEngine->state & 0xFFFF,
                           user->radar->pulseIndex,
@@ -570,7 +570,7 @@ int socketStreamHandler(RKOperator *O) {
                           user->radar->momentEngine->state & 0xFFFF,
                           user->radar->rayIndex,
                           user->radar->momentEngine->almostFull,
-                          user->radar->healthEngine->state & 0xFFFFFFFF,
+                          user->radar->healthEngine ? user->radar->healthEngine->state & 0xFFFFFFFF : 0,
                           user->radar->healthIndex,
                           user->radar->sweepEngine->state & 0xFFFF,
                           user->radar->sweepEngine->processedRayIndex,
@@ -697,7 +697,10 @@ int socketStreamHandler(RKOperator *O) {
             }
             j = 0;
             k = 0;
-            endIndex = RKPreviousModuloS(user->radar->steerEngine->statusBufferIndex, RKBufferSSlotCount);
+            endIndex = user->steerStatusIndex;
+            if (user->radar->steerEngine) {
+                endIndex = RKPreviousModuloS(user->radar->steerEngine->statusBufferIndex, RKBufferSSlotCount);
+            }
             while (user->steerStatusIndex != endIndex && k < RKMaximumPacketSize - 200) {
                 c = user->radar->steerEngine->statusBuffer[user->steerStatusIndex];
                 k += sprintf(user->string + k, "%s\n", c);
-- 
2.43.0


From 83ec2b27374357b1f7a37de20e7d9054f8a45b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 184/240] fix: show the samples of the pulse on the scope, and
 no more than it has

---
 source/RKCommandCenter.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 993b459..e492c16 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1383,7 +1383,7 @@ int socketStreamHandler(RKOperator *O) {
             usleep(1000);
         }
 
-        if (!(user->streamsInProgress & RKPulseStatusProcessed)) {
+        if (!(user->streamsInProgress & RKStreamDisplayIQ)) {
             user->pulseIndex = endIndex;
             s = 0;
             while (!(pulse->header.s & RKPulseStatusHasIQData) && engine->server->state == RKServerStateActive && s++ < 20) {
@@ -1409,13 +1409,13 @@ int socketStreamHandler(RKOperator *O) {
             switch (user->ascopeMode) {
                 case 2:
                     // Show the waveform that was used through the forward sampling path
-                    pulseHeader.gateCount = MIN(4096, pulseHeader.gateCount);
+                    pulseHeader.gateCount = MIN(4096, pulseHeader.downSampledGateCount);
                     if (!(user->radar->desc.initFlags & RKInitFlagSignalProcessor)) {
                         break;
                     }
                     i = 0;
                     gid = pulse->header.i % user->radar->pulseEngine->filterGroupCount;
-                    for (k = 0; k < MIN(2000, user->radar->pulseEngine->filterAnchors[gid][0].length); k++) {
+                    for (k = 0; k < MIN(MIN(2000, pulse->header.gateCount), user->radar->pulseEngine->filterAnchors[gid][0].length); k++) {
                         *userDataH++ = *c16DataH++;
                         *userDataV++ = *c16DataV++;
                         i++;
@@ -1476,17 +1476,19 @@ int socketStreamHandler(RKOperator *O) {
                     scale = 1.0f / sqrtf((float)user->radar->pulseEngine->filterAnchors[0][0].length);
                     yH = RKGetComplexDataFromPulse(pulse, 0);
                     yV = RKGetComplexDataFromPulse(pulse, 1);
-                    for (i = 0; i < pulseHeader.downSampledGateCount; i++) {
+                    for (i = 0; i < pulseHeader.gateCount; i++) {
                         userDataH->i   = (int16_t)(scale * yH->i);
-                        userDataH++->q = (int16_t)(scale * yH++->q);
+                        userDataH++->q = (int16_t)(scale * yH->q);
                         userDataV->i   = (int16_t)(scale * yV->i);
-                        userDataV++->q = (int16_t)(scale * yV++->q);
+                        userDataV++->q = (int16_t)(scale * yV->q);
+                        yH += k;
+                        yV += k;
                     }
                     break;
 
                 default:
                     // I/Q data from Int16C samples
-                    pulseHeader.gateCount = MIN(4096, pulseHeader.pulseWidthSampleCount + 10);
+                    pulseHeader.gateCount = MIN(4096, MIN(pulseHeader.gateCount, pulseHeader.pulseWidthSampleCount + 10));
                     for (i = 0; i < pulseHeader.gateCount; i++) {
                         *userDataH++ = *c16DataH;
                         *userDataV++ = *c16DataV;
-- 
2.43.0


From 17fec7f09a8bbab3f0875e4ecb1fdc1676e987ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 185/240] fix: send the controls in the JSON string that has
 been made for them

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index e492c16..c7e433a 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -740,7 +740,7 @@ int socketStreamHandler(RKOperator *O) {
             RKMakeJSONStringFromControls(user->scratch, user->radar->controls, user->radar->controlCount);
             //j += sprintf(user->string + j, "\"Controls\": [%s]}" RKEOL, user->scratch);
             j += snprintf(user->string + j, RKMaximumPacketSize - j, "\"Controls\": [");
-            strncpy(user->string + j, user->scratch, RKMaximumPacketSize - 16 - j);
+            j += snprintf(user->string + j, RKMaximumPacketSize - 16 - j, "%s", user->scratch);
             j += snprintf(user->string + j, RKMaximumPacketSize - j, "]}" RKEOL);
             O->delimTx.type = RKNetworkPacketTypeControls;
             O->delimTx.size = j;
-- 
2.43.0


From f5cb0e6bc3be3f6f386c0192145f48ee28195a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 186/240] fix: keep no more than the radars that a command
 center can have, and remove one from anywhere in the list

---
 source/RKCommandCenter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c7e433a..c39c6ec 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1657,6 +1657,7 @@ void RKCommandCenterSetPort(RKCommandCenter *engine, const int port) {
 void RKCommandCenterAddRadar(RKCommandCenter *engine, RKRadar *radar) {
     if (engine->radarCount >= 4) {
         RKLog("%s unable to add another radar.\n", engine->name);
+        return;
     }
     engine->radars[engine->radarCount] = radar;
     engine->radarCount++;
@@ -1679,10 +1680,11 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
     for (i = 0; i < engine->radarCount; i++) {
         if (engine->radars[i] == radar) {
             RKLog("%s Removing '%s' ...\n", engine->name, radar->desc.name);
-            while (i < engine->radarCount - 1) {
-                engine->radars[i] = engine->radars[i + 1];
+            for (k = i; k < engine->radarCount - 1; k++) {
+                engine->radars[k] = engine->radars[k + 1];
             }
-            engine->radarCount--;
+            engine->radars[--engine->radarCount] = NULL;
+            break;
         }
     }
     for (i = 0; i < engine->server->maxClient; i++) {
-- 
2.43.0


From 87b8d630f20ffb67dabc222622ba1932a8f7ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 187/240] fix: start the steer status stream at the latest
 status as the ray status stream does

---
 source/RKCommandCenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c39c6ec..00b0b79 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -277,6 +277,9 @@ int socketCommandHandler(RKOperator *O) {
                     user->streams = stream;
                     user->streamsInProgress = RKStreamNull;
                     user->rayStatusIndex = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
+                    if (user->radar->steerEngine) {
+                        user->steerStatusIndex = RKPreviousModuloS(user->radar->steerEngine->statusBufferIndex, RKBufferSSlotCount);
+                    }
                     user->scratchSpaceIndex = user->radar->sweepEngine->scratchSpaceIndex;
                     user->ticForStatusStream = 0;
                     pthread_mutex_unlock(&user->mutex);
-- 
2.43.0


From 224500195b309916f63530b4f2de4235aab8bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 188/240] fix: keep the time of a client in its own variable

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 00b0b79..48da4a6 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -406,7 +406,7 @@ int socketStreamHandler(RKOperator *O) {
 
     int i, j, k, s;
     char *c;
-    static struct timeval t0;
+    struct timeval t0;
 
     int gid;
     ssize_t size;
-- 
2.43.0


From da855af913abbd6492768084ce8a65a5b3b4d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 189/240] fix: keep the other streams when a text stream is
 selected

---
 source/RKFoundation.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 7563d61..246bf13 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1582,31 +1582,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
-- 
2.43.0


From db07e8b19b616204a1f91897535100037d32b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 190/240] fix: write the letter of the text stream that has
 been selected

---
 source/RKFoundation.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 246bf13..5fe1b95 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1723,20 +1723,17 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
-        j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
-        j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
-        j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
-        j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
-        j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
-        j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
-        j += sprintf(string + j, "7");
+    switch (stream & RKStreamStatusMask) {
+        case RKStreamStatusPositions: j += sprintf(string + j, "0"); break;
+        case RKStreamStatusPulses:    j += sprintf(string + j, "1"); break;
+        case RKStreamStatusRays:      j += sprintf(string + j, "2"); break;
+        case RKStreamStatusIngest:    j += sprintf(string + j, "3"); break;
+        case RKStreamStatusEngines:   j += sprintf(string + j, "4"); break;
+        case RKStreamStatusBuffers:   j += sprintf(string + j, "5"); break;
+        case RKStreamASCIIArtZ:       j += sprintf(string + j, "6"); break;
+        case RKStreamASCIIArtHealth:  j += sprintf(string + j, "7"); break;
+        case RKStreamASCIIArtVCP:     j += sprintf(string + j, "8"); break;
+        default: break;
     }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
-- 
2.43.0


From 9586110c2913ec8472ae515c6aa52bd30fc4a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 191/240] fix: receive a delimiter in pieces, and do not wait
 for a client that has closed

---
 source/RKServer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index f0ff26b..37ca624 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -647,7 +647,8 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                errno = 0;
+                if ((r = read(O->sid, (char *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
@@ -691,6 +692,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < M->timeoutSeconds * 100) {
+                errno = 0;
                 if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
                     k += r;
                     if (k >= delimiter->size) {
-- 
2.43.0


From 30796b712b2ce0312857cb36f108e1162e3ffef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:18 +0000
Subject: [PATCH 192/240] fix: keep the product data of a client within the
 product, and ask a client for no more than it describes

---
 source/RKCommandCenter.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 48da4a6..2a22d80 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1303,13 +1303,23 @@ int socketStreamHandler(RKOperator *O) {
                     for (k = 0; k < user->productCount; k++) {
                         RKLog(">%s %s Expecting return from algorithm key = %d for productId = %d ...\n",
                               engine->name, O->name, user->productDescriptions[k].key, user->productIds[k]);
+                        memset(user->string, 0, RKMaximumStringLength);
                         size = RKServerReceiveUserPayload(O, user->string, RKNetworkMessageFormatHeaderDefinedSize);
                         if (size < 0) {
                             RKLog("%s %s Error. Failed receiving user product header ...\n", engine->name, O->name);
-                            continue;
+                            break;
+                        }
+                        user->string[MIN(size, RKMaximumPacketSize - 1)] = '\0';
+                        c = RKGetValueOfKey(user->string, "productId");
+                        productId = c ? RKProductIdFromString(c) : 0;
+                        c = RKGetValueOfKey(user->string, "configId");
+                        identifier = c ? RKIdentifierFromString(c) : 0;
+                        // The data always follow, whether they can be used or not
+                        size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
+                        if (size < 0) {
+                            RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
+                            break;
                         }
-                        productId = RKProductIdFromString(RKGetValueOfKey(user->string, "productId"));
-                        identifier = RKIdentifierFromString(RKGetValueOfKey(user->string, "configId"));
                         if (user->productIds[k] != productId) {
                             RKLog("%s %s Warning. Inconsistent productId = %d (expected) != %d (reported)\n", engine->name, O->name, user->productIds[k], productId);
                         } else if (sweep->header.config.i != identifier) {
@@ -1319,7 +1329,7 @@ int socketStreamHandler(RKOperator *O) {
                             if (product) {
                                 // Transfer important meta data and prepare the necessary buffer size
                                 RKProductInitFromSweep(product, sweep);
-                                size = RKServerReceiveUserPayload(O, product->data, RKNetworkMessageFormatHeaderDefinedSize);
+                                memcpy(product->data, user->scratch, MIN((size_t)size, product->capacity * sizeof(RKFloat)));
                                 if (user->radar->sweepEngine->verbose > 1) {
                                     RKLog("%s %s %s (%d) -> %u %zu\n",
                                           engine->name, O->name, user->string, strlen(user->string), productId, identifier);
@@ -1327,13 +1337,7 @@ int socketStreamHandler(RKOperator *O) {
                                 RKShowArray(product->data, product->desc.symbol, product->header.gateCount, product->header.rayCount);
                                 RKSweepEngineSetProductComplete(user->radar->sweepEngine, sweep, product);
                             } else {
-                                // Still need to consume this packet so we dump it to a scratch space
                                 RKLog("Warning. Unable to retrieve storage for incoming sweep.\n");
-                                size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
-                            }
-                            if (size < 0) {
-                                RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
-                                continue;
                             }
                         } // else (user->productIds[k] == productId && sweep->header.config.i == identifier)
                     } // for (k = 0; k < user->productCount; k++) ...
-- 
2.43.0


From ae83b15521d490eb35e26cc3c88fbc5308eea544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:51 +0000
Subject: [PATCH 193/240] fix: take a radar away from its clients between two
 of their stream updates

---
 source/RKCommandCenter.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 2a22d80..a36887a 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -454,7 +454,7 @@ int socketStreamHandler(RKOperator *O) {
 
     pthread_mutex_lock(&user->mutex);
 
-    if (!(user->radar->state & RKRadarStateLive)) {
+    if (user->radar == NULL || !(user->radar->state & RKRadarStateLive)) {
         pthread_mutex_unlock(&user->mutex);
         return 0;
     }
@@ -1556,13 +1556,14 @@ int socketStreamHandler(RKOperator *O) {
 int socketInitialHandler(RKOperator *O) {
     RKCommandCenter *engine = O->userResource;
 
+    pthread_mutex_lock(&engine->mutex);
+
     if (engine->radarCount == 0) {
         RKLog("%s No radar yet.\n", engine->name);
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultNoRadar;
     }
 
-    pthread_mutex_lock(&engine->mutex);
-
     RKUser *user = &engine->users[O->iid];
     if (user->streams != RKStreamNull) {
         RKLog("%s %s Warning. Unexpected user state.   user->streams = %x", engine->name, O->name, user->streams);
@@ -1611,8 +1612,10 @@ int socketTerminateHandler(RKOperator *O) {
             user->productIds[k] = 0;
         }
     }
+    pthread_mutex_lock(&engine->mutex);
     pthread_mutex_destroy(&user->mutex);
     user->radar = NULL;
+    pthread_mutex_unlock(&engine->mutex);
     consolidateStreams(engine);
     return RKResultSuccess;
 }
@@ -1684,6 +1687,7 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
         }
     }
     engine->suspendHandler = true;
+    pthread_mutex_lock(&engine->mutex);
     for (i = 0; i < engine->radarCount; i++) {
         if (engine->radars[i] == radar) {
             RKLog("%s Removing '%s' ...\n", engine->name, radar->desc.name);
@@ -1694,12 +1698,15 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
             break;
         }
     }
-    for (i = 0; i < engine->server->maxClient; i++) {
-        if (engine->server->busy[i] && engine->users[i].serverOperator->state == RKOperatorStateActive && engine->users[i].radar == radar) {
+    for (i = 0; i < MIN(engine->server->maxClient, RKCommandCenterMaxConnections); i++) {
+        if (engine->users[i].radar == radar) {
             RKLog("%s Removing '%s' from user %s %s ...\n", engine->name, radar->desc.name, engine->users[i].serverOperator->name, engine->users[i].login);
+            pthread_mutex_lock(&engine->users[i].mutex);
             engine->users[i].radar = NULL;
+            pthread_mutex_unlock(&engine->users[i].mutex);
         }
     }
+    pthread_mutex_unlock(&engine->mutex);
     if (engine->radarCount) {
         j = 0;
         char string[RKMaximumStringLength];
-- 
2.43.0


From ea34eb049895451d77bbeb73ce3290b192438bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 194/240] fix: give each user product an id of its own when two
 clients describe one at the same time

---
 source/RKSweepEngine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 889e32b..a92cfe7 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -747,15 +747,16 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
+    pthread_mutex_lock(&engine->productMutex);
     while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
     if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].i = 0;
     engine->productBuffer[i].pid = productId;
     engine->productBuffer[i].desc = desc;
-- 
2.43.0


From 6444f0a363901684574ede3a800125f6ce5cbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 195/240] fix: refuse user products without a complete
 description

---
 source/RKCommandCenter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index a36887a..7cd36a6 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -295,7 +295,11 @@ int socketCommandHandler(RKOperator *O) {
                         RKOperatorSendCommandResponse(O, user->commandResponse);
                         break;
                     }
-                    RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
+                    if (RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1) != RKResultSuccess) {
+                        sprintf(user->commandResponse, "NAK. Incomplete product description." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
                           user->productDescriptions[user->productCount].name,
-- 
2.43.0


From 8fc0de66e94dc5fb2f658f48cc88a786c493b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:34 +0000
Subject: [PATCH 196/240] fix: store the texts of a product description without
 their quotes

---
 source/RKFoundation.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 5fe1b95..5bc2f4d 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2304,6 +2304,18 @@ bool RKFindCondition(const char *string, const RKStatusEnum target, const bool s
     return found;
 }
 
+// Copy a value from RKGetValueOfKey() without its quotes, if it has them
+static void RKCopyUnquotedValue(char *dst, const char *value, const size_t size) {
+    size_t len = strlen(value);
+    if (len > 1 && (value[0] == '"' || value[0] == '\'') && value[len - 1] == value[0]) {
+        value++;
+        len -= 2;
+    }
+    len = MIN(len, size - 1);
+    memcpy(dst, value, len);
+    dst[len] = '\0';
+}
+
 int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     size_t k;
     char *keyString;
@@ -2320,14 +2332,14 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Product name is mandatory
     keyString = RKGetValueOfKey(inputString, "name");
     if (keyString) {
-        strncpy(desc->name, keyString, RKNameLength - 1);
+        RKCopyUnquotedValue(desc->name, keyString, sizeof(desc->name));
     } else {
         return RKResultIncompleteProductDescription;
     }
     // Product symbol is mandatory
     keyString = RKGetValueOfKey(inputString, "symbol");
     if (keyString) {
-        strncpy(desc->symbol, keyString, 7);
+        RKCopyUnquotedValue(desc->symbol, keyString, sizeof(desc->symbol));
     } else {
         return RKResultIncompleteProductDescription;
     }
@@ -2365,11 +2377,11 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Optional values
     keyString = RKGetValueOfKey(inputString, "unit");
     if (keyString) {
-        strncpy(desc->unit, keyString, 5);
+        RKCopyUnquotedValue(desc->unit, keyString, sizeof(desc->unit));
     }
     keyString = RKGetValueOfKey(inputString, "colormap");
     if (keyString) {
-        strncpy(desc->colormap, keyString, 9);
+        RKCopyUnquotedValue(desc->colormap, keyString, sizeof(desc->colormap));
     }
     keyString = RKGetValueOfKey(inputString, "minimumValue");
     if (keyString) {
-- 
2.43.0


From 18e1f794f20c27cd47675d6bf47eea71b2dbec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 197/240] fix: leave the other streams in progress when a text
 stream starts

---
 source/RKCommandCenter.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 7cd36a6..9665b5f 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -487,7 +487,7 @@ int socketStreamHandler(RKOperator *O) {
         k = user->streams & user->access & RKStreamStatusMask;
         if (k == RKStreamStatusPositions) {
             // Stream "0" - Positions
-            user->streamsInProgress = RKStreamStatusPositions;
+            user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusPositions;
             if (user->radar->positionEngine) {
                 k = snprintf(user->string, RKMaximumStringLength, "%s" RKEOL,
                              RKPositionEnginePositionString(user->radar->positionEngine));
@@ -501,7 +501,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusPulses) {
             // Stream "1" - Pulses
-            user->streamsInProgress = RKStreamStatusPulses;
+            user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusPulses;
             k = snprintf(user->string, RKMaximumPacketSize, "%s" RKEOL,
                          RKPulseEnginePulseString(user->radar->pulseEngine));
             O->delimTx.type = RKNetworkPacketTypePlainText;
@@ -511,7 +511,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusRays) {
             // Stream "2" - Rays (no skipping)
-            user->streamsInProgress = RKStreamStatusRays;
+            user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusRays;
             j = 0;
             k = 0;
             endIndex = RKPreviousModuloS(user->radar->momentEngine->rayStatusBufferIndex, RKBufferSSlotCount);
@@ -532,7 +532,7 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else if (k == RKStreamStatusIngest) {
             // Stream "3" - Overall status
-            user->streamsInProgress = RKStreamStatusIngest;
+            user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusIngest;
             k = snprintf(user->string, RKMaximumPacketSize, "%s %s %s %s %s" RKEOL,
                          RKPulseEngineStatusString(user->radar->pulseEngine),
                          RKPulseRingFilterEngineStatusString(user->radar->pulseRingFilterEngine),
@@ -546,7 +546,7 @@ int socketStreamHandler(RKOperator *O) {
             user->ticForStatusStream++;
         } else if (k == RKStreamStatusEngines) {
             // Stream "4" - Engine status
-            user->streamsInProgress = RKStreamStatusEngines;
+            user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusEngines;
             if (user->ticForStatusStream % 20 == 0) {
                 char spacer[64];
                 sprintf(spacer, "%s | %s",
@@ -591,7 +591,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamStatusBuffers) {
             // Stream "5" - Buffer overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamStatusBuffers) {
-                user->streamsInProgress = RKStreamStatusBuffers;
+                user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamStatusBuffers;
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences | RKTextPreferencesDrawBackground);
             } else {
                 k = RKBufferOverview(user->string, user->radar, user->textPreferences);
@@ -610,7 +610,7 @@ int socketStreamHandler(RKOperator *O) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
             if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
-                user->streamsInProgress = RKStreamASCIIArtZ;
+                user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamASCIIArtZ;
                 user->asciiArtStride = (uint16_t)MAX(1, (int)ray->header.gateCount / MAX(1, user->terminalSize.ws_col - 20));
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
@@ -690,7 +690,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtHealth) {
             // Stream "7" - Health Overview
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtHealth) {
-                user->streamsInProgress = RKStreamASCIIArtHealth;
+                user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamASCIIArtHealth;
             }
             health = RKGetLatestHealth(user->radar);
             k = RKHealthOverview(user->string, health->string, user->textPreferences | RKTextPreferencesDrawBackground);
@@ -700,7 +700,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtVCP) {
             // Stream "8" - RKSteerEngine (no skipping)
             if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtVCP) {
-                user->streamsInProgress = RKStreamASCIIArtVCP;
+                user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamASCIIArtVCP;
             }
             j = 0;
             k = 0;
-- 
2.43.0


From 2536b09fad00977c6aa2daf6442265ed8b427538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 198/240] fix: send the texts on time to clients that receive
 other streams too

---
 headers/RadarKit/RKCommandCenter.h | 1 +
 source/RKCommandCenter.c           | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/headers/RadarKit/RKCommandCenter.h b/headers/RadarKit/RKCommandCenter.h
index b5931c3..0389098 100644
--- a/headers/RadarKit/RKCommandCenter.h
+++ b/headers/RadarKit/RKCommandCenter.h
@@ -23,6 +23,7 @@ typedef struct rk_user {
     uint64_t                         tic;                                                          // Counter of socketStreamHandler() calls
     uint64_t                         ticForStatusStream;                                           // Counter of socketStreamHandler() for status streams
     double                           timeLastOut;                                                  // Time since the last basic stream was sent
+    double                           timeLastTextOut;                                              // Time since the last text stream was sent
     double                           timeLastHealthOut;                                            // Time since the last health stream was sent
     double                           timeLastDisplayIQOut;                                         // Time since the last display I/Q was sent
     double                           timeLastIn;                                                   // Time since the last command was received
diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 9665b5f..15fb092 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -481,7 +481,7 @@ int socketStreamHandler(RKOperator *O) {
         {"\033[48;5;201m"},
         {"\033[48;5;93m"}
     };
-    if (user->radar->desc.initFlags & RKInitFlagSignalProcessor && time - user->timeLastOut >= 0.08) {
+    if (user->radar->desc.initFlags & RKInitFlagSignalProcessor && time - user->timeLastTextOut >= 0.08) {
         // Signal processor only - showing the latest summary text view
         #pragma mark Summary Text
         k = user->streams & user->access & RKStreamStatusMask;
@@ -754,7 +754,10 @@ int socketStreamHandler(RKOperator *O) {
             RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
             user->timeLastOut = time;
         }
-    } // (user->radar->desc.initFlags & RKInitFlagSignalProcessor && time - user->timeLastOut >= 0.08) ...
+        if (user->timeLastOut == time) {
+            user->timeLastTextOut = time;
+        }
+    } // (user->radar->desc.initFlags & RKInitFlagSignalProcessor && time - user->timeLastTextOut >= 0.08) ...
 
     // For contiguous streaming:
     // If we just started a connection, grab the payload that is either:
-- 
2.43.0


From 2ee0322261e78986c4e5dd582207e33d1cd6ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 199/240] fix: show the elements that an array has, and arrays
 of large values

---
 source/RKFoundation.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 5bc2f4d..718eb8d 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -779,12 +779,15 @@ void RKShowVecComplex(const char *name, const RKComplex *p, const int n) {
 
 static char *arrayHeadTailElementsInString(const float *d, const int length) {
     int c, k = 0;
-    static char line[1024];
-    for (c = 0; c < 3; c++) {
+    static __thread char line[1024];
+    line[0] = '\0';
+    for (c = 0; c < MIN(3, length); c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
-    k += sprintf(line + k, " ...");
-    for (c = length - 3; c < length; c++) {
+    if (length > 6) {
+        k += sprintf(line + k, " ...");
+    }
+    for (c = MAX(3, length - 3); c < length; c++) {
         k += sprintf(line + k, " %6.2f", *(d + c));
     }
     return line;
@@ -792,7 +795,7 @@ static char *arrayHeadTailElementsInString(const float *d, const int length) {
 
 void RKShowArray(const RKFloat *data, const char *letter, const int width, const int height) {
     int j, k = 0, n = (int)strlen(letter);
-    char text[1024];
+    char text[8192];
     char pad[n + 1];
     memset(pad, ' ', n);
     pad[n] = '\0';
-- 
2.43.0


From 19d1435edd4a3fa8ff67cd6cfc99873dfa22be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:18 +0000
Subject: [PATCH 200/240] fix: do not hold a client at a ray that has been
 released

---
 source/RKCommandCenter.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 15fb092..d0408e3 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -622,8 +622,10 @@ int socketStreamHandler(RKOperator *O) {
                 k = 0;
                 while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200) {
                     ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
-                    if (!(ray->header.s & RKRayStatusReady)) {
-                        break;
+                    if ((int64_t)ray->header.i < 0) {
+                        // This slot has never been used
+                        user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                        continue;
                     }
                     k += sprintf(user->string + k, "%04d %5.2f %6.2f ", (int)(ray->header.i % 1000), ray->header.startElevation, ray->header.startAzimuth);
                     // Now we paint the ASCII art
@@ -878,8 +880,10 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
-                if (!(ray->header.s & RKRayStatusReady)) {
-                    break;
+                if ((int64_t)ray->header.i < 0) {
+                    // This slot has never been used
+                    user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                    continue;
                 }
                 // Duplicate and send the header with only selected products
                 //memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
@@ -1015,8 +1019,10 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
-                if (!(ray->header.s & RKRayStatusReady)) {
-                    break;
+                if ((int64_t)ray->header.i < 0) {
+                    // This slot has never been used
+                    user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                    continue;
                 }
                 // Duplicate and send the header with only selected products
                 // memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
-- 
2.43.0


From 7eae98c129b800d3b2734c0a70e9259ee8cf580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:18 +0000
Subject: [PATCH 201/240] fix: keep the place of the ASCII art apart from that
 of the ray streams

---
 headers/RadarKit/RKCommandCenter.h |  1 +
 source/RKCommandCenter.c           | 14 +++++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/headers/RadarKit/RKCommandCenter.h b/headers/RadarKit/RKCommandCenter.h
index 0389098..db910d5 100644
--- a/headers/RadarKit/RKCommandCenter.h
+++ b/headers/RadarKit/RKCommandCenter.h
@@ -42,6 +42,7 @@ typedef struct rk_user {
     struct winsize                   terminalSize;                                                 // Terminal window size of the user
     uint16_t                         pulseDownSamplingRatio;                                       // Additional down-sampling ratio for pulse live stream
     uint16_t                         rayDownSamplingRatio;                                         // Additional down-sampling ratio for ray live stream
+    uint32_t                         asciiArtRayIndex;                                             // Ray index of the ASCII art
     uint16_t                         asciiArtStride;                                               // Gate stride for ASCII art
     uint16_t                         ascopeMode;                                                   // The ASCope mode: 1-4
     pthread_mutex_t                  mutex;                                                        //
diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index d0408e3..7d64bd0 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -612,7 +612,7 @@ int socketStreamHandler(RKOperator *O) {
             if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = (user->streamsInProgress & ~RKStreamStatusMask) | RKStreamASCIIArtZ;
                 user->asciiArtStride = (uint16_t)MAX(1, (int)ray->header.gateCount / MAX(1, user->terminalSize.ws_col - 20));
-                user->rayIndex = endIndex;
+                user->asciiArtRayIndex = endIndex;
                 if (engine->verbose) {
                     RKLog("%s %s Streaming RKRay ASCII art -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
                           ray->header.s, ray->header.s & RKRayStatusReady ? "ready" : "not ready");
@@ -620,11 +620,11 @@ int socketStreamHandler(RKOperator *O) {
             }
             if (ray) {
                 k = 0;
-                while (user->rayIndex != endIndex && k < RKMaximumPacketSize - 200) {
-                    ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                while (user->asciiArtRayIndex != endIndex && k < RKMaximumPacketSize - 200) {
+                    ray = RKGetRayFromBuffer(user->radar->rays, user->asciiArtRayIndex);
                     if ((int64_t)ray->header.i < 0) {
                         // This slot has never been used
-                        user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                        user->asciiArtRayIndex = RKNextModuloS(user->asciiArtRayIndex, user->radar->desc.rayBufferDepth);
                         continue;
                     }
                     k += sprintf(user->string + k, "%04d %5.2f %6.2f ", (int)(ray->header.i % 1000), ray->header.startElevation, ray->header.startAzimuth);
@@ -647,7 +647,7 @@ int socketStreamHandler(RKOperator *O) {
                         }
                     }
                     k += sprintf(user->string + k, "%s" RKEOL, RKNoColor);
-                    user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                    user->asciiArtRayIndex = RKNextModuloS(user->asciiArtRayIndex, user->radar->desc.rayBufferDepth);
                 }
                 O->delimTx.type = RKNetworkPacketTypePlainText;
                 O->delimTx.size = k;
@@ -686,8 +686,8 @@ int socketStreamHandler(RKOperator *O) {
                 user->ticForStatusStream++;
             } else if (engine->verbose) {
                 // Ray is NULL
-                RKLog("%s %s No ray for ASCII art.  user->rayIndex = %d   endIndex = %d\n",
-                      engine->name, O->name, user->rayIndex, endIndex);
+                RKLog("%s %s No ray for ASCII art.  user->asciiArtRayIndex = %d   endIndex = %d\n",
+                      engine->name, O->name, user->asciiArtRayIndex, endIndex);
             } // if (ray) ...
         } else if (k == RKStreamASCIIArtHealth) {
             // Stream "7" - Health Overview
-- 
2.43.0


From 53d290ad7c2974928f43f179578ebf3f384f2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 202/240] fix: do not keep waiting for the products of a client
 whose radar has been removed

---
 source/RKCommandCenter.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 7d64bd0..52d5676 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -42,6 +42,17 @@ static void consolidateStreams(RKCommandCenter *engine) {
     }
 }
 
+// The radar of this user does not expect the products of this user any more
+static void undescribeProducts(RKUser *user) {
+    for (int k = 0; k < user->productCount; k++) {
+        if (user->productIds[k] && user->radar) {
+            RKSweepEngineUndescribeProduct(user->radar->sweepEngine, user->productIds[k]);
+            user->productIds[k] = 0;
+        }
+    }
+    user->productCount = 0;
+}
+
 static void copyRayHeader(RKRayHeaderV1 *destination, RKRayHeader *source) {
     destination->capacity        = source->capacity;
     destination->s               = source->s;
@@ -1613,19 +1624,13 @@ int socketInitialHandler(RKOperator *O) {
 }
 
 int socketTerminateHandler(RKOperator *O) {
-    int k;
     RKCommandCenter *engine = O->userResource;
     RKUser *user = &engine->users[O->iid];
     user->access = RKStreamNull;
     user->streams = RKStreamNull;
     RKLog(">%s %s Disconnected.\n", engine->name, O->name);
-    for (k = 0; k < user->productCount; k++) {
-        if (user->productIds[k] && user->radar) {
-            RKSweepEngineUndescribeProduct(user->radar->sweepEngine, user->productIds[k]);
-            user->productIds[k] = 0;
-        }
-    }
     pthread_mutex_lock(&engine->mutex);
+    undescribeProducts(user);
     pthread_mutex_destroy(&user->mutex);
     user->radar = NULL;
     pthread_mutex_unlock(&engine->mutex);
@@ -1715,6 +1720,7 @@ void RKCommandCenterRemoveRadar(RKCommandCenter *engine, RKRadar *radar) {
         if (engine->users[i].radar == radar) {
             RKLog("%s Removing '%s' from user %s %s ...\n", engine->name, radar->desc.name, engine->users[i].serverOperator->name, engine->users[i].login);
             pthread_mutex_lock(&engine->users[i].mutex);
+            undescribeProducts(&engine->users[i]);
             engine->users[i].radar = NULL;
             pthread_mutex_unlock(&engine->users[i].mutex);
         }
-- 
2.43.0


From 591057c3bb0c2d983cf9bbf5d6127c5e85d203ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:08 +0000
Subject: [PATCH 203/240] fix: wait for the data of a client no longer than the
 timeout of the server

---
 source/RKServer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 37ca624..83245a8 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -648,7 +648,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
                 errno = 0;
-                if ((r = read(O->sid, (char *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = recv(O->sid, (char *)delimiter + k, sizeof(RKNetDelimiter) - k, MSG_DONTWAIT)) > 0) {
                     if (r) {
                         k += r;
                         if (k == sizeof(RKNetDelimiter)) {
@@ -693,12 +693,11 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             readCount = 0;
             while (readCount++ < M->timeoutSeconds * 100) {
                 errno = 0;
-                if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
+                if ((r = (int)recv(O->sid, buffer + k, delimiter->size - k, MSG_DONTWAIT)) > 0) {
                     k += r;
+                    readCount = 0;
                     if (k >= delimiter->size) {
                         break;
-                    } else {
-                        usleep(10000);
                     }
                 } else if (errno != EAGAIN) {
                     if (M->verbose > 1) {
@@ -730,7 +729,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < M->timeoutSeconds * 100) {
-                if ((r = (int)read(O->sid, buffer + k, blockLength - k)) > 0) {
+                if ((r = (int)recv(O->sid, buffer + k, blockLength - k, MSG_DONTWAIT)) > 0) {
                     k += r;
                     if (k >= blockLength) {
                         break;
-- 
2.43.0


From caa918af550d271f3311f23cb6969612243d4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 204/240] fix: Soft restart forgets the system inspector it has
 released

The new inspector sums up the memory of the engines, its own predecessor
included, before the pointer to that one has been replaced.
---
 source/RKRadar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 9cb1495..515faff 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -2174,6 +2174,7 @@ int RKSoftRestart(RKRadar *radar) {
 
     // Stop the inspector
     RKSimpleEngineFree(radar->systemInspector);
+    radar->systemInspector = NULL;
 
     // Stop all data acquisition and DSP-related engines
     RKSweepEngineStop(radar->sweepEngine);
-- 
2.43.0


From b2ca44ffab7ccaea0b5ffdecfc07f8f2b7898a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:44 +0000
Subject: [PATCH 205/240] fix: The replacement of a useless reference of the
 clock is used throughout

The internal tics went into the history while the reading itself and the
sums were still those of the caller, which gave times days off.
---
 source/RKClock.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 5ede489..c722753 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -127,9 +127,9 @@ void RKClockSetHighPrecision(RKClock *clock, const bool value) {
 //   us up to the precision of microseconds. If more than such precision is needed. The
 //   reference time should be set to a running reference.
 //
-double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
+double RKClockGetTime(RKClock *clock, const double reference, struct timeval *timeval) {
     int j = 0;
-    double x, dx, du, y;
+    double u, x, dx, du, y;
     struct timeval t;
     bool recent = true;
     
@@ -151,6 +151,8 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         clock->count = 0;
         clock->index = 0;
     }
+    // Use the internal reference if the one from the user has been found useless
+    u = clock->useInternalReference ? (double)clock->tic++ : reference;
     // These parameters should be reset when the clock is restarted
     if (clock->count == 0) {
         recent = false;
@@ -163,11 +165,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
     const int k = clock->index;
     clock->tBuffer[k] = t;
     clock->xBuffer[k] = x;
-    if (clock->useInternalReference) {
-        clock->uBuffer[k] = clock->tic++;
-    } else {
-        clock->uBuffer[k] = u;
-    }
+    clock->uBuffer[k] = u;
     // We are done with the indices; update them for the next call
     clock->index = RKNextModuloS(k, clock->size);
     // Derive time only if the clock has been called at least once. Otherwise (1.0 / clock->count) would be undefined
@@ -202,10 +200,12 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
                     RKLog("%s Warning. Reference tic change of %.e per second is unexpected.\n", clock->name, du);
                     RKLog("%s Warning. Will be replaced with an internal uniform reference.\n", clock->name);
                 }
-                // Override with own tic?
+                // Override with own tic. The history is of the other reference so start over
                 clock->useInternalReference = true;
-                clock->uBuffer[k] = clock->tic++;
-                du = clock->uBuffer[k] - clock->uBuffer[j];
+                clock->hasWisdom = false;
+                clock->count = 0;
+                clock->index = 0;
+                return RKClockGetTime(clock, reference, timeval);
             }
             if (clock->count == clock->stride) {
                 RKLog("%s b = %.2e   du/dx = %s   offset = %.3f us", clock->name, clock->b, RKFloatToCommaStyleString(1.0 / clock->dx), 1.0e6 * clock->offsetSeconds);
-- 
2.43.0


From 47c420346fa974d48c0590466a9800b0958a969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:44 +0000
Subject: [PATCH 206/240] fix: The clock needs more room than its stride

---
 source/RKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index c722753..1a5b05c 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -12,7 +12,7 @@
 #pragma mark Life Cycle
 
 RKClock *RKClockInitWithSize(const uint32_t size, const uint32_t stride) {
-    if (size < stride) {
+    if (size <= stride) {
         RKLog("Error. Clock size must be greater than stride.\n");
         return NULL;
     }
-- 
2.43.0


From ffc8085cab5a3cb92458fdbab5ae55c16d5327b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 207/240] fix: The daily log goes to its file whatever the
 length of the folder

The room for the date was counted from the length of a name, so a folder
of about that length left the name of the file unfinished.
---
 source/RKFoundation.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 718eb8d..fd8be65 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -241,13 +241,14 @@ int RKLog(const char *whatever, ...) {
     FILE *logFileID = NULL;
     if (rkGlobalParameters.dailyLog) {
         if (strlen(rkGlobalParameters.logFolder)) {
-            i = sprintf(filename, "%s/%s-", rkGlobalParameters.logFolder, rkGlobalParameters.program);
+            i = snprintf(filename, RKMaximumPathLength - 16, "%s/%s-", rkGlobalParameters.logFolder, rkGlobalParameters.program);
         } else if (strlen(rkGlobalParameters.rootDataFolder)) {
-            i = sprintf(filename, "%s/log/%s-", rkGlobalParameters.rootDataFolder, rkGlobalParameters.program);
+            i = snprintf(filename, RKMaximumPathLength - 16, "%s/log/%s-", rkGlobalParameters.rootDataFolder, rkGlobalParameters.program);
         } else {
             i = 0;
         }
-        strftime(filename + i, RKNameLength - i, "%Y%m%d.log", &tm);
+        i = MIN(i, RKMaximumPathLength - 17);
+        strftime(filename + i, RKMaximumPathLength - i, "%Y%m%d.log", &tm);
         if (i) {
             RKPreparePath(filename);
         }
-- 
2.43.0


From 85c139d14c72136649342fde46ce7dd88f3c47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 208/240] fix: The default log is in the root data folder when
 there is one

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index fd8be65..c27c76a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -378,9 +378,9 @@ int RKSetLogfile(const char *filename) {
 
 int RKSetLogfileToDefault(void) {
     if (strlen(rkGlobalParameters.rootDataFolder)) {
-        snprintf(rkGlobalParameters.logfile, RKMaximumPathLength, "%s", RKDefaultLogfile);
-    } else {
         snprintf(rkGlobalParameters.logfile, RKMaximumPathLength, "%s/%s", rkGlobalParameters.rootDataFolder, RKDefaultLogfile);
+    } else {
+        snprintf(rkGlobalParameters.logfile, RKMaximumPathLength, "%s", RKDefaultLogfile);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From d1fc14a63f20f964e4f2cbbc980d544816438a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 209/240] fix: An empty root data folder has no slash to take
 off

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index c27c76a..810ad83 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -358,7 +358,7 @@ int RKSetRootDataFolder(const char *folder) {
     }
     sprintf(rkGlobalParameters.rootDataFolder, "%s", folder);
     size_t len = strlen(rkGlobalParameters.rootDataFolder);
-    while (rkGlobalParameters.rootDataFolder[len - 1] == '/') {
+    while (len > 0 && rkGlobalParameters.rootDataFolder[len - 1] == '/') {
         len--;
     }
     rkGlobalParameters.rootDataFolder[len] = '\0';
-- 
2.43.0


From 77a4de77a0c33f3581a9ca3099a1614110b94db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:02 +0000
Subject: [PATCH 210/240] fix: The daily log is written whether or not there is
 another one

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 810ad83..2cb2a13 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -91,7 +91,7 @@ RKComplex RKComplexArraySum(RKComplex *src, const int count) {
 #pragma mark - Logger
 
 int RKLog(const char *whatever, ...) {
-    if (rkGlobalParameters.stream == NULL && rkGlobalParameters.logfile[0] == 0) {
+    if (rkGlobalParameters.stream == NULL && rkGlobalParameters.logfile[0] == 0 && !rkGlobalParameters.dailyLog) {
         return 0;
     }
     int i = 0;
-- 
2.43.0


From 74ab4209ffa2f62cb5a47b24b957249cdc8aaf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 211/240] fix: A root data folder that is too long is refused

---
 source/RKFoundation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 2cb2a13..17f7695 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -353,8 +353,9 @@ int RKSetRootFolder(const char *folder) {
 }
 
 int RKSetRootDataFolder(const char *folder) {
-    if (strlen(folder) > RKMaximumPathLength - 64) {
-        fprintf(stderr, "WARNING. Very long root folder.\n");
+    if (strlen(folder) >= sizeof(rkGlobalParameters.rootDataFolder)) {
+        fprintf(stderr, "Error. The root folder is too long.\n");
+        return RKResultTooBig;
     }
     sprintf(rkGlobalParameters.rootDataFolder, "%s", folder);
     size_t len = strlen(rkGlobalParameters.rootDataFolder);
-- 
2.43.0


From 14be91f2634d93fac26096110ceda1e4b118c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:26 +0000
Subject: [PATCH 212/240] fix: Clearing the rays clears all of their data

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 17f7695..e392151 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1488,7 +1488,7 @@ int RKClearRayBuffer(RKBuffer buffer, const uint32_t count) {
         ray->header.s = RKRayStatusVacant;
         ray->header.i = -(uint64_t)count + k;
         ray->header.gateCount = 0;
-        memset(ray->data, 0, RKBaseProductCount * ray->header.capacity * (sizeof(uint8_t) + sizeof(float)));
+        memset(ray->data, 0, ray->header.capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float))));
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From 2cc4b246dd08c34d318619f9636d47995a281d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:26 +0000
Subject: [PATCH 213/240] fix: Count the arrays of the moment scratch at their
 size

---
 source/RKScratch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 266d244..da52c7d 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -196,7 +196,7 @@ size_t RKMomentScratchAlloc(RKMomentScratch **buffer, const uint32_t capacity, c
     }
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&scratch->gC, RKMemoryAlignSize, scratch->capacity * sizeof(RKFloat)));
     s++;
-    bytes += s * sizeof(RKFloat);
+    bytes += s * scratch->capacity * sizeof(RKFloat);
 
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&scratch->mask, RKMemoryAlignSize, scratch->capacity * sizeof(uint8_t)));
     bytes += scratch->capacity * sizeof(uint8_t);
-- 
2.43.0


From 62e2a89d604649ad46426cd0064dc563bb87d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:26 +0000
Subject: [PATCH 214/240] fix: A full command queue takes no more, and both
 ends move under the lock

---
 source/RKFoundation.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e392151..5922e7e 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2457,18 +2457,17 @@ RKCommandQueue *RKCommandQueueInit(const uint16_t depth, const bool nonblocking)
 }
 
 RKCommand *RKCommandQueuePop(RKCommandQueue *queue) {
-    if (queue->count == 0) {
+    pthread_mutex_lock(&queue->lock);
+    while (queue->count == 0) {
+        pthread_mutex_unlock(&queue->lock);
         if (queue->nonblocking) {
             return NULL;
-        } else {
-            do {
-                usleep(1000);
-            } while (queue->count == 0);
         }
+        usleep(1000);
+        pthread_mutex_lock(&queue->lock);
     }
     RKCommand *command = &queue->buffer[queue->tail];
     queue->tail = RKNextModuloS(queue->tail, queue->depth);
-    pthread_mutex_lock(&queue->lock);
     queue->count--;
     queue->toc++;
     pthread_mutex_unlock(&queue->lock);
@@ -2476,16 +2475,26 @@ RKCommand *RKCommandQueuePop(RKCommandQueue *queue) {
 }
 
 int RKCommandQueuePush(RKCommandQueue *queue, RKCommand *command) {
+    pthread_mutex_lock(&queue->lock);
+    // The slot of the latest withdrawal may still be in use
+    while (queue->count + 1 >= queue->depth) {
+        pthread_mutex_unlock(&queue->lock);
+        if (queue->nonblocking) {
+            return RKResultTooBig;
+        }
+        usleep(1000);
+        pthread_mutex_lock(&queue->lock);
+    }
     memcpy(&queue->buffer[queue->head], command, sizeof(RKCommand));
     queue->head = RKNextModuloS(queue->head, queue->depth);
-    pthread_mutex_lock(&queue->lock);
     queue->count++;
-    pthread_mutex_unlock(&queue->lock);
     queue->tic++;
+    pthread_mutex_unlock(&queue->lock);
     return RKResultSuccess;
 }
 
 int RKCommandQueueFree(RKCommandQueue *queue) {
+    pthread_mutex_destroy(&queue->lock);
     free(queue->buffer);
     free(queue);
     return RKResultSuccess;
-- 
2.43.0


From bc59af380145629ffc1a054cc9a5dffc26f9be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:01 +0000
Subject: [PATCH 215/240] fix: Align the lock of the command queue

---
 headers/RadarKit/RKTypes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index b7d3075..d5b71f6 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -1672,13 +1672,13 @@ typedef struct rk_task {
 } RKTask;
 
 typedef struct rk_command_queue {
+    pthread_mutex_t      lock;                                                 // Mutually exclusive access lock (first, for its alignment)
     uint16_t             head;                                                 // Head index (for push)
     uint16_t             tail;                                                 // Tail index (for pop)
     uint16_t             count;                                                // Number of elements that can be popped
     uint16_t             depth;                                                // Buffer depth
     bool                 nonblocking;                                          // Non-blocking operations
     RKCommand            *buffer;                                              // Buffer
-    pthread_mutex_t      lock;                                                 // Mutually exclusive access lock
     uint32_t             tic;                                                  // Deposit count
     uint32_t             toc;                                                  // Withdrawal count
 } RKCommandQueue;
-- 
2.43.0


From 2ddadfe277e1643f13e9919e8cb2fcc9f4e48b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 216/240] fix: The host of a web socket has no protocol in it,
 and fits

---
 source/RKWebSocket.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..9bb9065 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -589,7 +589,10 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
 
     // Default if host == NULL
     if (host == NULL || strlen(host) == 0) {
-        RKLog("%s Error. Input host cannot be %s\n", W->name, host);
+        RKLog("%s Error. Input host cannot be %s\n", W->name, host == NULL ? "NULL" : "empty");
+        pthread_attr_destroy(&W->threadAttributes);
+        pthread_mutex_destroy(&W->lock);
+        free(W);
         return NULL;
     }
     // Look for protocol https / http
@@ -606,14 +609,13 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     }
     n = strstr(c, ":");
     if (n == NULL) {
-        W->port = 80;
-        strcpy(W->host, host);
+        W->port = W->useSSL ? 443 : 80;
+        snprintf(W->host, sizeof(W->host), "%s", c);
     } else {
         W->port = atoi(n + 1);
         len = (size_t)(n - c);
         if (len) {
-            strncpy(W->host, c, len);
-            W->host[len] = '\0';
+            snprintf(W->host, sizeof(W->host), "%.*s", (int)len, c);
         } else {
             sprintf(W->host, "localhost");
         }
@@ -625,7 +627,7 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     if (path == NULL || strlen(path) == 0) {
         sprintf(W->path, "/");
     } else {
-        strcpy(W->path, path);
+        RKWebSocketSetPath(W, path);
     }
     // Establish the SSL context if necessary
     if (W->useSSL) {
@@ -651,7 +653,7 @@ void RKWebSocketFree(RKWebSocket *W) {
 #pragma mark - Properties
 
 void RKWebSocketSetPath(RKWebSocket *W, const char *path) {
-    strcpy(W->path, path);
+    snprintf(W->path, sizeof(W->path), "%s", path);
 }
 
 void RKWebSocketSetParent(RKWebSocket *W, const void *parent) {
-- 
2.43.0


From a1ec283289f4580ef1c293f78ccd5d8947e8be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 217/240] fix: Release the SSL resources of a web socket

---
 source/RKWebSocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 9bb9065..f15ac75 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -647,6 +647,10 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
 void RKWebSocketFree(RKWebSocket *W) {
     pthread_attr_destroy(&W->threadAttributes);
     pthread_mutex_destroy(&W->lock);
+    if (W->useSSL) {
+        SSL_free(W->ssl);
+        SSL_CTX_free(W->sslContext);
+    }
     free(W);
 }
 
-- 
2.43.0


From f4559897abfcb69028e445d68f25fdedc7256816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 218/240] fix: Find the arguments of a handshake in any order,
 case and length

---
 source/RKWebSocket.c | 47 +++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index f15ac75..98d3bf0 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -10,23 +10,30 @@
 
 #pragma mark - Static Methods
 
-static char *RKGetHandshakeArgument(const char *buf, const char *key) {
-    static char argument[80] = {0};
-    char *b, *e;
-    b = strstr(buf, key);
-    if (b == NULL) {
-        argument[0] = '\0';
-        return argument;
-    }
-    b += strlen(key);
-    while (*b == ':' || *b == ' ') {
-        b++;
-    }
-    e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
-    memcpy(argument, b, l);
-    argument[l] = '\0';
-    return argument;
+static void RKGetHandshakeArgument(char *argument, const size_t capacity, const char *buf, const char *key) {
+    const size_t k = strlen(key);
+    const char *b = buf, *e;
+    argument[0] = '\0';
+    // Go through the lines that follow the status line
+    while ((b = strstr(b, "\r\n")) != NULL) {
+        b += 2;
+        if (strncasecmp(b, key, k) || b[k] != ':') {
+            continue;
+        }
+        b += k + 1;
+        while (*b == ' ' || *b == '\t') {
+            b++;
+        }
+        e = strstr(b, "\r\n");
+        size_t l = e ? (size_t)(e - b) : strlen(b);
+        while (l > 0 && (b[l - 1] == ' ' || b[l - 1] == '\t')) {
+            l--;
+        }
+        l = MIN(l, capacity - 1);
+        memcpy(argument, b, l);
+        argument[l] = '\0';
+        return;
+    }
 }
 
 static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
@@ -264,9 +271,9 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     // Verify the return digest, websocket upgrade, connection upgrade, etc.
-    strcpy(W->digest, RKGetHandshakeArgument(buf, "Sec-WebSocket-Accept"));
-    strcpy(W->upgrade, RKGetHandshakeArgument(buf, "Upgrade"));
-    strcpy(W->connection, RKGetHandshakeArgument(buf, "Connection"));
+    RKGetHandshakeArgument(W->digest, sizeof(W->digest), buf, "Sec-WebSocket-Accept");
+    RKGetHandshakeArgument(W->upgrade, sizeof(W->upgrade), buf, "Upgrade");
+    RKGetHandshakeArgument(W->connection, sizeof(W->connection), buf, "Connection");
 
     // This block is now hardcoded for default secret key, should replace ...
     if (strcmp(W->secret, "RadarHub123456789abcde") == 0 &&
-- 
2.43.0


From a483e5d742e2709d76a510c91b03121ebb585e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 219/240] fix: A web socket takes no payload that it cannot
 hold or send

---
 headers/RadarKit/RKWebSocket.h |  1 +
 source/RKWebSocket.c           | 15 +++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index fcc9c21..3487863 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -24,6 +24,7 @@
 #include "_rfc_6455.h"
 
 #define RKWebSocketFrameSize                     (1024 * 1024)
+#define RKWebSocketPayloadLimit                  (RKWebSocketFrameSize - 15)      // Header up to 14 bytes, one for the terminator
 #define RKWebSocketPayloadDepth                  1000
 #define RKWebSocketTimeoutDeltaMicroseconds      10000
 #define RKWebSocketTimeoutThresholdSeconds       10.0
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 98d3bf0..fc48f77 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -71,10 +71,9 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        if (r > RKWebSocketPayloadLimit) {
+            r = RKWebSocketPayloadLimit;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketPayloadLimit);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
@@ -731,8 +730,16 @@ void RKWebSocketWait(RKWebSocket *W) {
 // RKWebSocketSend() does not make a copy of the source.
 // The input source must be allocated using malloc() or similar variants.
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
+    if (size > RKWebSocketPayloadLimit) {
+        RKLog("%s Error. Payload of %zu bytes is larger than %d\n", W->name, size, RKWebSocketPayloadLimit);
+        return -1;
+    }
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail) {
+        pthread_mutex_unlock(&W->lock);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
     W->payloadHead = k;
-- 
2.43.0


From 6218f0dccece2e09c941639057d580f48854db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 220/240] fix: Mask frames without a payload, and unmask all of
 a payload

---
 source/RKWebSocket.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index fc48f77..d58e98e 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -84,21 +84,25 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     } else {
         h->len = r;
     }
-    if (src) {
-        if (h->mask) {
-            ws_mask_key key = {.u32 = rand()};
-            *((uint32_t *)payload) = key.u32;
-            payload += 4;
-            memcpy(payload, src, r);
-            for (int i = 0; i < r; i++) {
-                payload[i] ^= key.code[i % 4];
-            }
-        } else {
-            // Should not happen in this module
+    if (src == NULL) {
+        r = 0;
+        h->len = 0;
+    }
+    if (h->mask) {
+        ws_mask_key key = {.u32 = rand()};
+        *((uint32_t *)payload) = key.u32;
+        payload += 4;
+        if (r) {
             memcpy(payload, src, r);
         }
-        payload[r] = '\0';
+        for (size_t i = 0; i < r; i++) {
+            payload[i] ^= key.code[i % 4];
+        }
+    } else if (r) {
+        // Should not happen in this module
+        memcpy(payload, src, r);
     }
+    payload[r] = '\0';
     r = (size_t)((void *)payload - buf) + r;
     return r;
 }
@@ -116,13 +120,14 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
-    payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (size_t i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
+    payload[r] = '\0';
     *dst = payload;
     return r;
 }
@@ -138,6 +143,7 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
     } else {
         r += h->len;
     }
+    r += 4 * h->mask;
     return r;
 }
 
-- 
2.43.0


From ab16c91158e4e01d9e0f91aadaefdfbc53c32f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 221/240] fix: Keep the frame that a web socket writes apart
 from the one it reads, and write all of it

---
 headers/RadarKit/RKWebSocket.h |  3 ++-
 source/RKWebSocket.c           | 41 +++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index 3487863..1bbf6ce 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -81,7 +81,8 @@ struct rk_websocket {
     uint32_t                 timeoutCount;                                     // Internal variable
     uint64_t                 tic;
 
-    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame
+    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame to read
+    uint8_t                  outgoing[RKWebSocketFrameSize];                   // A local buffer to store a frame to write
 };
 
 RKWebSocket *RKWebSocketInit(const char *, const char *);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index d58e98e..4c8c885 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -45,11 +45,21 @@ static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
 }
 
 static int RKSocketWrite(RKWebSocket *W, size_t size) {
+    int r;
+    size_t count = 0;
     W->tic++;
-    if (W->useSSL) {
-        return SSL_write(W->ssl, W->frame, (int)size);
+    while (count < size) {
+        if (W->useSSL) {
+            r = SSL_write(W->ssl, W->outgoing + count, (int)(size - count));
+        } else {
+            r = (int)write(W->sd, W->outgoing + count, size - count);
+        }
+        if (r <= 0) {
+            return r;
+        }
+        count += r;
     }
-    return (int)write(W->sd, W->frame, size);
+    return (int)count;
 }
 
 static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void *src, size_t size) {
@@ -148,7 +158,7 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
 }
 
 static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *message, const int len) {
-    size_t size = RKWebSocketFrameEncode(W->frame,
+    size_t size = RKWebSocketFrameEncode(W->outgoing,
         ping ? RFC6455_OPCODE_PING : RFC6455_OPCODE_PONG,
         message, message == NULL ? 0 : (len == 0 ? strlen(message) : len));
     int r = RKSocketWrite(W, size);
@@ -168,8 +178,7 @@ static int RKWebSocketPong(RKWebSocket *W, const char *message, const int len) {
     return RKWebSocketPingPong(W, false, message, len);
 }
 
-static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
-    uint8_t *c = (uint8_t *)W->frame;
+static void RKShowWebsocketFrameHeader(uint8_t *c) {
     ws_frame_header *h = (ws_frame_header *)c;
     if (h->mask) {
         printf("%02x %02x   %02x %02x %02x %02x    %02x %02x %02x %02x %02x %02x %02x %02x ..."
@@ -231,7 +240,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         SSL_connect(W->ssl);
     }
 
-    char *buf = (char *)W->frame;
+    char *buf = (char *)W->outgoing;
     strcpy(W->secret, "RadarHub123456789abcde");
     FILE *fid = fopen("radarkit-radarhub-secret", "r");
     if (fid) {
@@ -262,6 +271,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     RKSocketWrite(W, strlen(buf));
+    buf = (char *)W->frame;
     do {
         r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
     } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
@@ -378,7 +388,7 @@ void *transporter(void *in) {
                             printf("RKWebSocket.transporter: WRITE \033[38;5;154m%s\033[m (%zu)\n",
                                    message, payload->size);
                         }
-                        size = RKWebSocketFrameEncode(W->frame, RFC6455_OPCODE_BINARY, payload->source, payload->size);
+                        size = RKWebSocketFrameEncode(W->outgoing, RFC6455_OPCODE_BINARY, payload->source, payload->size);
                         r = RKSocketWrite(W, size);
                         if (r < 0) {
                             if (W->verbose) {
@@ -455,7 +465,7 @@ void *transporter(void *in) {
                     }
                     if (W->verbose > 1) {
                         if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
+                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W->frame);
                         }
                         if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
                             RKBytesInHex(show, anchor, size);
@@ -491,10 +501,10 @@ void *transporter(void *in) {
                     char *word = words[rand() % 8];
                     r = RKWebSocketPing(W, word, (int)strlen(word));
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
+                        p32 = (uint32_t *)&W->outgoing[2];
                         ws_mask_key key = {.u32 = *p32};
                         for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
+                            uword[i] = W->outgoing[6 + i] ^ key.code[i % 4];
                         }
                         RKLog("%s C-PING: %s%s%s (%zu)\n", W->name,
                               rkGlobalParameters.showColor ? RKLimeColor : "",
@@ -502,7 +512,7 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               strlen(word));
                         if (W->verbose > 2) {
-                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W);
+                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W->outgoing);
                         }
                     }
                 }
@@ -514,11 +524,6 @@ void *transporter(void *in) {
                     memcpy(message, anchor, h->len); message[h->len] = '\0';
                     RKWebSocketPong(W, message, h->len);
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
-                        ws_mask_key key = {.u32 = *p32};
-                        for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
-                        }
                         if (h->len != 4) {
                             RKBytesInHex(show, message, h->len);
                         } else {
@@ -530,7 +535,7 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               h->len);
                         if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W);
+                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W->outgoing);
                         }
                     }
                 } else if (h->opcode == RFC6455_OPCODE_PONG) {
-- 
2.43.0


From 0db3912c2a810eda494efa4f2256eecbede29065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 222/240] fix: Show a ping of any length within the room for it

---
 source/RKWebSocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 4c8c885..fe0dc94 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -467,10 +467,10 @@ void *transporter(void *in) {
                         if (W->verbose > 2) {
                             printf("%2u read  ", total); RKShowWebsocketFrameHeader(W->frame);
                         }
-                        if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
-                        } else if (size > 32) {
+                        if (size > 32) {
                             RKHeadTailBytesInHex(show, anchor, size);
+                        } else if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
+                            RKBytesInHex(show, anchor, size);
                         } else {
                             memcpy(show, anchor, size);
                             show[size] = '\0';
@@ -525,7 +525,7 @@ void *transporter(void *in) {
                     RKWebSocketPong(W, message, h->len);
                     if (W->verbose > 1) {
                         if (h->len != 4) {
-                            RKBytesInHex(show, message, h->len);
+                            RKHeadTailBytesInHex(show, message, h->len);
                         } else {
                             memcpy(show, message, h->len + 1);
                         }
-- 
2.43.0


From 24937c3b0e039a1c317d4e7dcab4608bd2c7d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 223/240] fix: Read the handshake of a web socket in pieces,
 and give up when it ends or does not come

---
 source/RKWebSocket.c | 49 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index fe0dc94..dd3137b 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -196,9 +196,13 @@ static void RKShowWebsocketFrameHeader(uint8_t *c) {
     }
 }
 
+// Establish a connection. Returns the number of bytes of the frames that came with the handshake, or -1
 static int RKWebSocketConnect(RKWebSocket *W) {
     int r;
     char *c;
+    fd_set rfd;
+    struct timeval timeout;
+    uint32_t total = 0, count = 0;
     struct hostent *entry = gethostbyname(W->host);
     if (entry == NULL) {
         RKLog("%s Error. Failed to resolve '%s'\n", W->name, W->host);
@@ -212,7 +216,8 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
-    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
+        W->sd = 0;
         RKLog("%s Error. Failed opening socket\n", W->name);
         return -1;
     }
@@ -272,15 +277,36 @@ static int RKWebSocketConnect(RKWebSocket *W) {
 
     RKSocketWrite(W, strlen(buf));
     buf = (char *)W->frame;
-    do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
-        fprintf(stderr, "Error during handshake.\n");
-        fprintf(stderr, "%s", (char *)buf);
+    c = NULL;
+    buf[0] = '\0';
+    while (W->wantActive && c == NULL && total < RKWebSocketFrameSize - 1) {
+        if (!W->useSSL || SSL_pending(W->ssl) == 0) {
+            FD_ZERO(&rfd);
+            FD_SET(W->sd, &rfd);
+            timeout.tv_sec = 0;
+            timeout.tv_usec = W->timeoutDeltaMicroseconds;
+            r = select(W->sd + 1, &rfd, NULL, NULL, &timeout);
+            if (r == 0 && ++count < RKWebSocketTimeoutThresholdSeconds * 1.0e6 / W->timeoutDeltaMicroseconds) {
+                continue;
+            } else if (r <= 0) {
+                break;
+            }
+        }
+        r = RKSocketRead(W, total, RKWebSocketFrameSize - 1 - total);
+        if (r <= 0) {
+            break;
+        }
+        total += r;
+        buf[total] = '\0';
+        c = strstr(buf, "\r\n\r\n");
+    }
+    if (c == NULL) {
+        RKLog("%s Error. No complete response to the handshake.\n", W->name);
         return -1;
     }
-    buf[r] = '\0';
+    // The frames that came with the response are left for the caller
+    c += 3;
+    *c++ = '\0';
     if (W->verbose > 1) {
         printf("%s", buf);
     }
@@ -310,8 +336,13 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
+    total -= (uint32_t)(c - buf);
+    memmove(buf, c, total);
+
     // Discard all pending deliveries
+    pthread_mutex_lock(&W->lock);
     W->payloadTail = W->payloadHead;
+    pthread_mutex_unlock(&W->lock);
 
     // Call onOpen here for client to handle additional tasks after the connection is established.
     if (W->onOpen) {
@@ -320,7 +351,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
 
     W->connected = true;
 
-    return 0;
+    return (int)total;
 }
 
 #pragma mark - Internal run loops
-- 
2.43.0


From 75bd457e7a1fd1b24a5ad5c8dd699ed7aaa7e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 224/240] fix: Read the frames of a web socket whole, whatever
 pieces they come in

---
 source/RKWebSocket.c | 80 +++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index dd3137b..ce7dfb4 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -142,11 +142,18 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+// Get the size of the frame that begins in a buffer, 0 if there is not enough of it to tell
+static size_t RKWebSocketFrameGetTargetSize(void *buf, const size_t size) {
     size_t r = sizeof(ws_frame_header);
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
+    if (size < r || size < r + (h->len == 127 ? 8 : (h->len == 126 ? 2 : 0))) {
+        return 0;
+    }
     if (h->len == 127) {
+        if (ntohll(*(uint64_t *)xlen) > RKWebSocketFrameSize) {
+            return RKWebSocketFrameSize;
+        }
         r += 8 + ntohll(*(uint64_t *)xlen);
     } else if (h->len == 126) {
         r += 2 + ntohs(*(uint16_t *)xlen);
@@ -374,7 +381,8 @@ void *transporter(void *in) {
     struct timeval timeout;
     time_t s1, s0;
 
-    uint32_t origin = 0;
+    bool opened, complete;
+    uint8_t tail;
     uint32_t total = 0;
     uint32_t *p32;
 
@@ -382,7 +390,10 @@ void *transporter(void *in) {
 
     while (W->wantActive) {
 
-        RKWebSocketConnect(W);
+        r = RKWebSocketConnect(W);
+        opened = r >= 0;
+        total = opened ? r : 0;
+        W->timeoutCount = 0;
 
         // Run loop for read and write
         while (W->wantActive && W->connected) {
@@ -452,11 +463,18 @@ void *transporter(void *in) {
             size = 0;
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
-            FD_SET(W->sd, &rfd);
-            FD_SET(W->sd, &efd);
-            timeout.tv_sec = 0;
-            timeout.tv_usec = W->timeoutDeltaMicroseconds;
-            r = select(W->sd + 1, &rfd, NULL, &efd, &timeout);
+            targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, total);
+            complete = targetFrameSize > 0 && total >= targetFrameSize;
+            if (complete || (W->useSSL && SSL_pending(W->ssl) > 0)) {
+                r = 1;
+                FD_SET(W->sd, &rfd);
+            } else {
+                FD_SET(W->sd, &rfd);
+                FD_SET(W->sd, &efd);
+                timeout.tv_sec = 0;
+                timeout.tv_usec = W->timeoutDeltaMicroseconds;
+                r = select(W->sd + 1, &rfd, NULL, &efd, &timeout);
+            }
             if (r > 0) {
                 if (FD_ISSET(W->sd, &efd)) {
                     // Exceptions
@@ -466,27 +484,30 @@ void *transporter(void *in) {
                     W->connected = false;
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
-                    // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
-                    if (r <= 0) {
-                        if (W->verbose) {
-                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
+                    // There is something to read, unless a complete frame has come with the one before
+                    if (!complete) {
+                        r = RKSocketRead(W, total, RKWebSocketFrameSize - 1 - total);
+                        if (r <= 0) {
+                            if (W->verbose) {
+                                fprintf(stderr, "Error. RKSocketRead() = %d   total = %u\n", r, total);
+                            }
+                            W->connected = false;
+                            break;
                         }
+                        total += r;
+                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, total);
+                    }
+                    if (targetFrameSize >= RKWebSocketFrameSize) {
+                        RKLog("%s Error. Unable to receive a frame of %zu bytes or more.\n", W->name, targetFrameSize);
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
-                    if (total < targetFrameSize) {
-                        origin += r;
+                    complete = targetFrameSize > 0 && total >= targetFrameSize;
+                    if (!complete) {
                         continue;
-                    } else {
-                        origin = 0;
                     }
+                    // The payload is terminated in the place where the next frame begins
+                    tail = W->frame[targetFrameSize];
                     size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
                     if (!h->fin) {
                         fprintf(stderr, "I need upgrade!\n"
@@ -548,12 +569,13 @@ void *transporter(void *in) {
                     }
                 }
             }
-            // Interpret the payload if something was read
-            if (size > 0) {
+            // Interpret the payload if a frame was read
+            if (complete) {
                 if (h->opcode == RFC6455_OPCODE_PING) {
                     // Make a copy since payload --> W->buf or the behavior is unpredictable
-                    memcpy(message, anchor, h->len); message[h->len] = '\0';
-                    RKWebSocketPong(W, message, h->len);
+                    size = MIN(size, 125);
+                    memcpy(message, anchor, size); message[size] = '\0';
+                    RKWebSocketPong(W, size ? message : NULL, (int)size);
                     if (W->verbose > 1) {
                         if (h->len != 4) {
                             RKHeadTailBytesInHex(show, message, h->len);
@@ -580,6 +602,10 @@ void *transporter(void *in) {
                     }
                 }
                 W->timeoutCount = 0;
+                // Bring the beginning of the next frame to the front
+                W->frame[targetFrameSize] = tail;
+                total -= targetFrameSize;
+                memmove(W->frame, W->frame + targetFrameSize, total);
             }
         } // while (W->wantActive && W->connected) ...
         if (W->sd) {
-- 
2.43.0


From c7c90d2a53d55b4ae5c2ca1f84fbe6ea205d4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 225/240] fix: A web socket that could not be opened is not
 closed, and one that ends is not connected

---
 source/RKWebSocket.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index ce7dfb4..7b72107 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -382,7 +382,7 @@ void *transporter(void *in) {
     time_t s1, s0;
 
     bool opened, complete;
-    uint8_t tail;
+    uint8_t following;
     uint32_t total = 0;
     uint32_t *p32;
 
@@ -507,7 +507,7 @@ void *transporter(void *in) {
                         continue;
                     }
                     // The payload is terminated in the place where the next frame begins
-                    tail = W->frame[targetFrameSize];
+                    following = W->frame[targetFrameSize];
                     size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
                     if (!h->fin) {
                         fprintf(stderr, "I need upgrade!\n"
@@ -603,7 +603,7 @@ void *transporter(void *in) {
                 }
                 W->timeoutCount = 0;
                 // Bring the beginning of the next frame to the front
-                W->frame[targetFrameSize] = tail;
+                W->frame[targetFrameSize] = following;
                 total -= targetFrameSize;
                 memmove(W->frame, W->frame + targetFrameSize, total);
             }
@@ -612,7 +612,8 @@ void *transporter(void *in) {
             if (W->verbose > 1) {
                 RKLog("%s Closing socket sd = %d ...\n", W->name, W->sd);
             }
-            if (W->onClose) {
+            W->connected = false;
+            if (opened && W->onClose) {
                 W->onClose(W);
             }
             close(W->sd);
-- 
2.43.0


From 1d09f3cc536ab34c2767f407947ca3903dd4ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:14 +0000
Subject: [PATCH 226/240] fix: Use a new SSL state for each connection of a web
 socket

---
 source/RKWebSocket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 7b72107..1905bce 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -248,8 +248,12 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
     if (W->useSSL) {
-        SSL_set_fd(W->ssl, W->sd);
-        SSL_connect(W->ssl);
+        SSL_free(W->ssl);
+        W->ssl = SSL_new(W->sslContext);
+        if (W->ssl == NULL || SSL_set_fd(W->ssl, W->sd) != 1 || SSL_connect(W->ssl) != 1) {
+            RKLog("%s Error. Failed to establish SSL.\n", W->name);
+            return -1;
+        }
     }
 
     char *buf = (char *)W->outgoing;
-- 
2.43.0


From 2483e86661205c17850299b1bfa7c50efca1a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:51 +0000
Subject: [PATCH 227/240] fix: Tell a web socket frame that is too long
 whenever its header is in

---
 source/RKWebSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 1905bce..7e9fab3 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -468,7 +468,7 @@ void *transporter(void *in) {
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
             targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, total);
-            complete = targetFrameSize > 0 && total >= targetFrameSize;
+            complete = targetFrameSize > 0 && (total >= targetFrameSize || targetFrameSize >= RKWebSocketFrameSize);
             if (complete || (W->useSSL && SSL_pending(W->ssl) > 0)) {
                 r = 1;
                 FD_SET(W->sd, &rfd);
-- 
2.43.0


From aea58bf2f34ed45706f4c3c197108a80d6c415e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:07 +0000
Subject: [PATCH 228/240] fix: A web socket does not wait for data that an SSL
 record lacks

---
 source/RKWebSocket.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 7e9fab3..14f2c0a 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -39,7 +39,12 @@ static void RKGetHandshakeArgument(char *argument, const size_t capacity, const
 static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
     W->tic++;
     if (W->useSSL) {
-        return SSL_read(W->ssl, W->frame + origin, (int)size);
+        int r = SSL_read(W->ssl, W->frame + origin, (int)size);
+        if (r <= 0 && SSL_get_error(W->ssl, r) == SSL_ERROR_WANT_READ) {
+            // Whatever came was not a complete record of data
+            return -RKResultTimeout;
+        }
+        return r;
     }
     return (int)read(W->sd,W->frame + origin, size);
 }
@@ -254,6 +259,9 @@ static int RKWebSocketConnect(RKWebSocket *W) {
             RKLog("%s Error. Failed to establish SSL.\n", W->name);
             return -1;
         }
+        timeout.tv_sec = 0;
+        timeout.tv_usec = W->timeoutDeltaMicroseconds;
+        setsockopt(W->sd, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
     }
 
     char *buf = (char *)W->outgoing;
@@ -304,7 +312,9 @@ static int RKWebSocketConnect(RKWebSocket *W) {
             }
         }
         r = RKSocketRead(W, total, RKWebSocketFrameSize - 1 - total);
-        if (r <= 0) {
+        if (r == -RKResultTimeout) {
+            continue;
+        } else if (r <= 0) {
             break;
         }
         total += r;
@@ -491,7 +501,9 @@ void *transporter(void *in) {
                     // There is something to read, unless a complete frame has come with the one before
                     if (!complete) {
                         r = RKSocketRead(W, total, RKWebSocketFrameSize - 1 - total);
-                        if (r <= 0) {
+                        if (r == -RKResultTimeout) {
+                            continue;
+                        } else if (r <= 0) {
                             if (W->verbose) {
                                 fprintf(stderr, "Error. RKSocketRead() = %d   total = %u\n", r, total);
                             }
-- 
2.43.0


From 5a692cb7af6ee3d5c928ad01d2936adffc1304ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:21 +0000
Subject: [PATCH 229/240] fix: The monitor of a Pedzy pedestal ends with its
 client

---
 headers/RadarKit/RKPedestalPedzy.h |  1 +
 source/RKPedestalPedzy.c           | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/headers/RadarKit/RKPedestalPedzy.h b/headers/RadarKit/RKPedestalPedzy.h
index 5c96ef3..2360438 100644
--- a/headers/RadarKit/RKPedestalPedzy.h
+++ b/headers/RadarKit/RKPedestalPedzy.h
@@ -23,6 +23,7 @@ typedef struct rk_pedzy {
     char                   latestCommand[RKMaximumCommandLength];
     RKRadar                *radar;
     pthread_t              tidBackground;
+    bool                   wantBackground;
     RKByte                 response[RKMaximumStringLength];
 } RKPedestalPedzy;
 
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 99bcbc5..5821115 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -133,7 +133,7 @@ static void *pedestalPedzyHealth(void *in) {
     char elPosition[16];
     RKStatusEnum azEnum;
     RKStatusEnum elEnum;
-    while (me->client->state < RKClientStateDisconnecting) {
+    while (me->wantBackground) {
         if (me->client->state < RKClientStateConnected) {
             azInterlockStatus = RKStatusEnumInvalid;
             elInterlockStatus = RKStatusEnumInvalid;
@@ -184,6 +184,14 @@ static void *pedestalPedzyHealth(void *in) {
     return (void *)NULL;
 }
 
+static void pedestalPedzyStop(RKPedestalPedzy *me) {
+    RKClientStop(me->client);
+    if (me->wantBackground) {
+        me->wantBackground = false;
+        pthread_join(me->tidBackground, NULL);
+    }
+}
+
 #pragma mark - Protocol Implementations
 
 RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
@@ -225,9 +233,12 @@ RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
     RKClientSetReceiveHandler(me->client, &pedestalPedzyRead);
     RKClientStart(me->client, false);
 
+    me->wantBackground = true;
     if (pthread_create(&me->tidBackground, NULL, pedestalPedzyHealth, me) != 0) {
         RKLog("%s Error. Failed to start a pedestal monitor.\n", me->client->name);
-        return (void *)RKResultFailedToStartPedestalMonitor;
+        RKClientFree(me->client);
+        free(me);
+        return NULL;
     }
 
     return (RKPedestal)me;
@@ -245,7 +256,7 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
     }
 
     if (!strcmp(command, "disconnect")) {
-        RKClientStop(client);
+        pedestalPedzyStop(me);
     } else {
         if (client->verbose) {
             RKLog("%s Current client->state = 0x%08x   command = '%s'", client->name, client->state, command);
@@ -283,6 +294,7 @@ int RKPedestalPedzyFree(RKPedestal input) {
         return RKResultNoRadar;
     }
     RKPedestalPedzy *me = (RKPedestalPedzy *)input;
+    pedestalPedzyStop(me);
     RKClientFree(me->client);
     free(me);
     return RKResultSuccess;
-- 
2.43.0


From ebe9140960f4deaf700b10ab97a4862488aa1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:21 +0000
Subject: [PATCH 230/240] fix: A scan action does not overwrite a command to
 the pedestal, or go out in the middle of one

---
 source/RKHealthRelayNaveen.c |  2 ++
 source/RKHealthRelayTweeta.c |  2 ++
 source/RKPedestalPedzy.c     | 12 +++++++++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 8fd8f66..5d3fb18 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -130,7 +130,9 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index 69dccb8..e2eb5c2 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -137,7 +137,9 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 5821115..ee51c00 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -13,11 +13,15 @@
 
 #pragma mark - Internal Functions
 
-static ssize_t pedestalPedzySendAction(int sd, char *ship, RKScanAction *act) {
+static ssize_t pedestalPedzySendAction(RKClient *client, RKScanAction *act) {
+    char ship[sizeof(RKScanAction) + 4];
     sprintf(ship, "%c", 0x0f);
     memcpy(ship + 1, act, sizeof(RKScanAction));
     strncpy(ship + 1 + sizeof(RKScanAction), RKEOL, 3);
-    return RKNetworkSendPackets(sd, ship, sizeof(RKScanAction) + 3, NULL);
+    pthread_mutex_lock(&client->lock);
+    ssize_t r = RKNetworkSendPackets(client->sd, ship, sizeof(RKScanAction) + 3, NULL);
+    pthread_mutex_unlock(&client->lock);
+    return r;
 }
 
 static int pedestalPedzyRead(RKClient *client) {
@@ -86,7 +90,7 @@ static int pedestalPedzyRead(RKClient *client) {
         RKSetPositionReady(radar, newPosition);
 
         if (action->mode[0] & RKPedestalInstructTypeModeMask) {
-            pedestalPedzySendAction(client->sd, me->latestCommand, action);
+            pedestalPedzySendAction(client, action);
         }
 
     } else {
@@ -269,7 +273,9 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
+        pthread_mutex_unlock(&client->lock);
         while (responseIndex == me->responseIndex) {
             usleep(10000);
             if (++s % 100 == 0) {
-- 
2.43.0


From 3586f73ed4899f2dda432f7a478385b78cfd5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:21 +0000
Subject: [PATCH 231/240] fix: A command to a device that is too long is not
 sent

---
 source/RKHealthRelayNaveen.c | 5 +++++
 source/RKHealthRelayTweeta.c | 5 +++++
 source/RKPedestalPedzy.c     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 5d3fb18..1a5fd5f 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -130,6 +130,11 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        if (size >= RKMaximumCommandLength) {
+            RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
+            sprintf(response, "NAK. Command too long." RKEOL);
+            return RKResultTooBig;
+        }
         pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
         pthread_mutex_unlock(&client->lock);
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index e2eb5c2..f4a730e 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -137,6 +137,11 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        if (size >= RKMaximumCommandLength) {
+            RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
+            sprintf(response, "NAK. Command too long." RKEOL);
+            return RKResultTooBig;
+        }
         pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
         pthread_mutex_unlock(&client->lock);
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index ee51c00..fc34b83 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -273,6 +273,11 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
+        if (size >= RKMaximumCommandLength) {
+            RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
+            sprintf(response, "NAK. Command too long." RKEOL);
+            return RKResultTooBig;
+        }
         pthread_mutex_lock(&client->lock);
         RKNetworkSendPackets(client->sd, me->latestCommand, size, NULL);
         pthread_mutex_unlock(&client->lock);
-- 
2.43.0


From 0ecc306bb888d5a0baa87c22b522b20240d97fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 232/240] fix: Each command to a device gets its own response

---
 headers/RadarKit/RKHealthRelayNaveen.h | 1 +
 headers/RadarKit/RKHealthRelayTweeta.h | 1 +
 headers/RadarKit/RKPedestalPedzy.h     | 1 +
 source/RKHealthRelayNaveen.c           | 7 +++++++
 source/RKHealthRelayTweeta.c           | 7 +++++++
 source/RKPedestalPedzy.c               | 7 +++++++
 6 files changed, 24 insertions(+)

diff --git a/headers/RadarKit/RKHealthRelayNaveen.h b/headers/RadarKit/RKHealthRelayNaveen.h
index 333050b..7a3bb4e 100644
--- a/headers/RadarKit/RKHealthRelayNaveen.h
+++ b/headers/RadarKit/RKHealthRelayNaveen.h
@@ -29,6 +29,7 @@ typedef struct rk_naveen {
     RKRadar                *radar;
     pthread_t              tidBackground;
     RKByte                 response[RKMaximumStringLength];
+    pthread_mutex_t        lock;
 } RKHealthRelayNaveen;
 
 RKHealthRelay RKHealthRelayNaveenInit(RKRadar *, void *);
diff --git a/headers/RadarKit/RKHealthRelayTweeta.h b/headers/RadarKit/RKHealthRelayTweeta.h
index 714e89a..b8f10c5 100644
--- a/headers/RadarKit/RKHealthRelayTweeta.h
+++ b/headers/RadarKit/RKHealthRelayTweeta.h
@@ -26,6 +26,7 @@ typedef struct rk_tweeta {
     bool                   toggleEvent;
     pthread_t              tidBackground;
     RKByte                 response[RKMaximumStringLength];
+    pthread_mutex_t        lock;
 } RKHealthRelayTweeta;
 
 RKHealthRelay RKHealthRelayTweetaInit(RKRadar *, void *);
diff --git a/headers/RadarKit/RKPedestalPedzy.h b/headers/RadarKit/RKPedestalPedzy.h
index 2360438..fcc7292 100644
--- a/headers/RadarKit/RKPedestalPedzy.h
+++ b/headers/RadarKit/RKPedestalPedzy.h
@@ -25,6 +25,7 @@ typedef struct rk_pedzy {
     pthread_t              tidBackground;
     bool                   wantBackground;
     RKByte                 response[RKMaximumStringLength];
+    pthread_mutex_t        lock;
 } RKPedestalPedzy;
 
 RKPedestal RKPedestalPedzyInit(RKRadar *, void *);
diff --git a/source/RKHealthRelayNaveen.c b/source/RKHealthRelayNaveen.c
index 1a5fd5f..198b1ad 100644
--- a/source/RKHealthRelayNaveen.c
+++ b/source/RKHealthRelayNaveen.c
@@ -71,6 +71,7 @@ RKHealthRelay RKHealthRelayNaveenInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKHealthRelayNaveen));
     me->radar = radar;
+    pthread_mutex_init(&me->lock, NULL);
 
     // What the server is uses a TCP socket at default port 9557. The payload is aywas a line string terminated by \r\n
     RKClientDesc desc;
@@ -127,12 +128,15 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
             sprintf(response, "NAK. Health Relay not connected." RKEOL);
             return RKResultClientNotConnected;
         }
+        // One command at a time, so that each gets its own response
+        pthread_mutex_lock(&me->lock);
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
         if (size >= RKMaximumCommandLength) {
             RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
             sprintf(response, "NAK. Command too long." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTooBig;
         }
         pthread_mutex_lock(&client->lock);
@@ -150,9 +154,11 @@ int RKHealthRelayNaveenExec(RKHealthRelay input, const char * command, char _Nul
         }
         if (responseIndex == me->responseIndex) {
             sprintf(response, "NAK. Timeout." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->lock);
     }
     return RKResultSuccess;
 }
@@ -163,6 +169,7 @@ int RKHealthRelayNaveenFree(RKHealthRelay input) {
     }
     RKHealthRelayNaveen *me = (RKHealthRelayNaveen *)input;
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->lock);
     free(me);
     return RKResultSuccess;
 }
diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index f4a730e..a937301 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -78,6 +78,7 @@ RKHealthRelay RKHealthRelayTweetaInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKHealthRelayTweeta));
     me->radar = radar;
+    pthread_mutex_init(&me->lock, NULL);
 
     // Tweeta uses a TCP socket server at port 9556. The payload is always a line string terminated by \r\n
     RKClientDesc desc;
@@ -134,12 +135,15 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
             sprintf(response, "NAK. Health Relay not connected." RKEOL);
             return RKResultClientNotConnected;
         }
+        // One command at a time, so that each gets its own response
+        pthread_mutex_lock(&me->lock);
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
         if (size >= RKMaximumCommandLength) {
             RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
             sprintf(response, "NAK. Command too long." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTooBig;
         }
         pthread_mutex_lock(&client->lock);
@@ -157,9 +161,11 @@ int RKHealthRelayTweetaExec(RKHealthRelay input, const char *command, char _Null
         }
         if (responseIndex == me->responseIndex) {
             sprintf(response, "NAK. Timeout." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->lock);
     }
     return RKResultSuccess;
 }
@@ -170,6 +176,7 @@ int RKHealthRelayTweetaFree(RKHealthRelay input) {
     }
     RKHealthRelayTweeta *me = (RKHealthRelayTweeta *)input;
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->lock);
     free(me);
     return RKResultSuccess;
 }
diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index fc34b83..336ef06 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -206,6 +206,7 @@ RKPedestal RKPedestalPedzyInit(RKRadar *radar, void *input) {
     }
     memset(me, 0, sizeof(RKPedestalPedzy));
     me->radar = radar;
+    pthread_mutex_init(&me->lock, NULL);
 
     // Pedzy uses a TCP socket server at port 9000.
     RKClientDesc desc;
@@ -270,12 +271,15 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
             sprintf(response, "NAK. Pedestal not connected." RKEOL);
             return RKResultClientNotConnected;
         }
+        // One command at a time, so that each gets its own response
+        pthread_mutex_lock(&me->lock);
         int s = 0;
         uint32_t responseIndex = me->responseIndex;
         size_t size = snprintf(me->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
         if (size >= RKMaximumCommandLength) {
             RKLog("%s Error. Command of %zu characters is too long.\n", client->name, strlen(command));
             sprintf(response, "NAK. Command too long." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTooBig;
         }
         pthread_mutex_lock(&client->lock);
@@ -293,9 +297,11 @@ int RKPedestalPedzyExec(RKPedestal input, const char *command, char _Nullable *r
         }
         if (responseIndex == me->responseIndex) {
             sprintf(response, "NAK. Timeout." RKEOL);
+            pthread_mutex_unlock(&me->lock);
             return RKResultTimeout;
         }
         strcpy(response, me->responses[responseIndex]);
+        pthread_mutex_unlock(&me->lock);
     }
     return RKResultSuccess;
 }
@@ -307,6 +313,7 @@ int RKPedestalPedzyFree(RKPedestal input) {
     RKPedestalPedzy *me = (RKPedestalPedzy *)input;
     pedestalPedzyStop(me);
     RKClientFree(me->client);
+    pthread_mutex_destroy(&me->lock);
     free(me);
     return RKResultSuccess;
 }
-- 
2.43.0


From fa0fb9de37bbb6cedcac4dba7e04e4a2ce38ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 233/240] fix: The event of a push button is told in quotes,
 too

---
 source/RKHealthRelayTweeta.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKHealthRelayTweeta.c b/source/RKHealthRelayTweeta.c
index a937301..9debe63 100644
--- a/source/RKHealthRelayTweeta.c
+++ b/source/RKHealthRelayTweeta.c
@@ -34,7 +34,10 @@ static int healthRelayTweetaRead(RKClient *client) {
         RKStripTail(health->string);
 
         // Handle a special event from a push button
-        if ((stringValue = RKGetValueOfKey(health->string, "event")) != NULL && !strcasecmp(stringValue, "short")) {
+        if ((stringValue = RKGetValueOfKey(health->string, "event")) != NULL) {
+            RKUnquote(stringValue);
+        }
+        if (stringValue != NULL && !strcasecmp(stringValue, "short")) {
             RKLog("%s event %s\n", client->name, stringValue);
             RKPerformMasterTaskInBackground(radar, "b");
         }
-- 
2.43.0


From 5d6b357b155fa3883d991fe1ff28ad9a53a5bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 234/240] fix: A position that has not come whole is not used

---
 source/RKPedestalPedzy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKPedestalPedzy.c b/source/RKPedestalPedzy.c
index 336ef06..b5fac4e 100644
--- a/source/RKPedestalPedzy.c
+++ b/source/RKPedestalPedzy.c
@@ -34,6 +34,10 @@ static int pedestalPedzyRead(RKClient *client) {
 
     if (client->netDelimiter.type == 'p') {
         // The payload just read by RKClient
+        if (client->netDelimiter.size < sizeof(RKPosition)) {
+            RKLog("%s Error. Incomplete position of %d bytes.\n", client->name, (int)client->netDelimiter.size);
+            return RKResultIncompletePedestal;
+        }
         RKPosition *position = (RKPosition *)client->userPayload;
         if (radar->desc.initFlags & RKInitFlagVeryVeryVerbose) {
             RKLog("Position   %010ld   %010ld   %08x EL %.2f  AZ %.2f --> %d\n",
-- 
2.43.0


From 19a1ab501ad2b1cb0f5a54494510435bbff0e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 235/240] fix: A GPS sentence without a checksum or with a long
 field is read within its bounds

---
 source/ext/nmea.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/ext/nmea.c b/source/ext/nmea.c
index 64c50c1..df975db 100644
--- a/source/ext/nmea.c
+++ b/source/ext/nmea.c
@@ -43,6 +43,9 @@ static int nmea_checksum(const char *sentence) {
     for (i = 1; i < strlen(sentence) && sentence[i] != '*'; i++) {
         c ^= sentence[i];
     }
+    if (sentence[i] != '*') {
+        return -1;
+    }
     char ic = strtol(sentence + i + 1, NULL, 16);
     return (int)(ic - c);
 }
@@ -74,7 +77,7 @@ static void tokenize_nmea_gpgga_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to UTC time
         if (i == 0) {
@@ -136,7 +139,7 @@ static void tokenize_nmea_gphdt_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to heading
         if (i == 0) {
@@ -169,7 +172,7 @@ static void tokenize_nmea_gpvtg_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         if (i == 0) {
             true_bearing = atof(token);
@@ -229,7 +232,7 @@ static void tokenize_nmea_gprmc_sentence(char *sentence, nmea_data_t *out) {
         // The field is contained between *s and *e
         len = (size_t)((long)e - (long)s) - 1;
         if (len) {
-            strncpy(token, s + 1, len);
+            strncpy(token, s + 1, len < sizeof(token) ? len : sizeof(token) - 1);
         }
         // convert the second token to UTC time
         if (i == 0) {
-- 
2.43.0


From d7f8ae0c1b75ff1469ae8af0f5ad8e8d0232e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 236/240] fix: Read the coordinates of a GPS sentence in double
 precision

---
 source/ext/nmea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ext/nmea.c b/source/ext/nmea.c
index df975db..bb0e2e4 100644
--- a/source/ext/nmea.c
+++ b/source/ext/nmea.c
@@ -61,7 +61,7 @@ static void tokenize_nmea_gpgga_sentence(char *sentence, nmea_data_t *out) {
     int i = 0;
 
     int     b;
-    float   c;
+    double  c;
     double  utc_time, latitude, longitude;
     uint8_t quality;
 
@@ -216,7 +216,7 @@ static void tokenize_nmea_gprmc_sentence(char *sentence, nmea_data_t *out) {
     int i = 0;
 
     int     b;
-    float   c;
+    double  c;
     double  utc_time, latitude, longitude, course;
     bool    valid;
 
-- 
2.43.0


From fd81ad9852b77fede918e2b5ea1c77d01e7fe496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:08 +0000
Subject: [PATCH 237/240] fix: A payload of a web socket is sent as it was when
 it was queued

---
 headers/RadarKit/RKWebSocket.h |  1 +
 source/RKWebSocket.c           | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index 1bbf6ce..edd7223 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -37,6 +37,7 @@
 typedef struct rk_websocket_payload {
     void    *source;
     size_t  size;
+    size_t  capacity;
 } RKWebSocketPayload;
 
 typedef struct rk_websocket RKWebSocket;
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 14f2c0a..2c00e10 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -737,11 +737,15 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
 
 void RKWebSocketFree(RKWebSocket *W) {
     pthread_attr_destroy(&W->threadAttributes);
+    int k;
     pthread_mutex_destroy(&W->lock);
     if (W->useSSL) {
         SSL_free(W->ssl);
         SSL_CTX_free(W->sslContext);
     }
+    for (k = 0; k < RKWebSocketPayloadDepth; k++) {
+        free(W->payloads[k].source);
+    }
     free(W);
 }
 
@@ -812,8 +816,7 @@ void RKWebSocketWait(RKWebSocket *W) {
     }
 }
 
-// RKWebSocketSend() does not make a copy of the source.
-// The input source must be allocated using malloc() or similar variants.
+// RKWebSocketSend() makes a copy of the source, which can be reused once it returns.
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     if (size > RKWebSocketPayloadLimit) {
         RKLog("%s Error. Payload of %zu bytes is larger than %d\n", W->name, size, RKWebSocketPayloadLimit);
@@ -825,8 +828,19 @@ int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
         pthread_mutex_unlock(&W->lock);
         return -1;
     }
-    W->payloads[k].source = source;
-    W->payloads[k].size = size;
+    RKWebSocketPayload *payload = &W->payloads[k];
+    if (payload->capacity < size) {
+        void *space = realloc(payload->source, size);
+        if (space == NULL) {
+            RKLog("%s Error. Unable to allocate a payload of %zu bytes.\n", W->name, size);
+            pthread_mutex_unlock(&W->lock);
+            return -1;
+        }
+        payload->source = space;
+        payload->capacity = size;
+    }
+    memcpy(payload->source, source, size);
+    payload->size = size;
     W->payloadHead = k;
     pthread_mutex_unlock(&W->lock);
     return 0;
-- 
2.43.0


From 16c919a573a6866fa07d1fdbc858578951185073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:08 +0000
Subject: [PATCH 238/240] fix: A reporter stops and frees only after its worker
 has ended

---
 source/RKReporter.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/source/RKReporter.c b/source/RKReporter.c
index cc1b745..a3ed274 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -282,9 +282,6 @@ void handleOpen(RKWebSocket *W) {
 
 void handleClose(RKWebSocket *W) {
     RKReporter *engine = (RKReporter *)W->parent;
-    if (engine->state & RKEngineStateActive) {
-        engine->state ^= RKEngineStateActive;
-    }
     if (engine->verbose > 1) {
         RKLog("%s RKReporter.handleClose()\n", engine->name);
     }
@@ -420,6 +417,7 @@ void RKReporterStart(RKReporter *engine) {
     engine->state |= RKEngineStateWantActive;
     if (pthread_create(&engine->ticWorker, NULL, reporter, engine)) {
         RKLog("%s Error. Failed to create reporter().\n", engine->name);
+        engine->state ^= RKEngineStateWantActive;
         return;
     }
     do {
@@ -433,11 +431,8 @@ void RKReporterStop(RKReporter *engine) {
     }
     if (engine->state & RKEngineStateWantActive) {
         engine->state ^= RKEngineStateWantActive;
+        pthread_join(engine->ticWorker, NULL);
     }
-    int s = 0;
-    do {
-        usleep(10000);
-    } while (engine->state & RKEngineStateActive && s++ < 300);
     if (engine->ws->wantActive) {
         RKLog("%s Disconnecting %s:%s ...\n", engine->name, engine->ws->host, engine->ws->path);
         RKWebSocketStop(engine->ws);
-- 
2.43.0


From 664304bbaf77baee20c6073eeb1fc6a6e718415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:08 +0000
Subject: [PATCH 239/240] fix: A response of a reporter fits its message, which
 no other thread uses

---
 source/RKReporter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RKReporter.c b/source/RKReporter.c
index a3ed274..34b7b3e 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -39,7 +39,7 @@ void *reporter(void *in) {
     int count;
     int k;
 
-    char *message = engine->message;
+    char *message = engine->scratch;
     void *payload = NULL;
 
     int16_t *y;
@@ -316,10 +316,11 @@ void handleMessage(RKWebSocket *W, void *payload, size_t size) {
     }
 
     int c = rand() % 3;
-    int r = sprintf(engine->message, "%c%c%s",
+    int r = snprintf(engine->message, sizeof(engine->message), "%c%c%s",
                     RKRadarHubTypeResponse,
                     c == 0 ? 'A' : (c == 1 ? 'Q' : 'N'),
                     message);
+    r = MIN(r, (int)sizeof(engine->message) - 1);
     RKLog("%s %s%s%s\n", engine->name,
           rkGlobalParameters.showColor ? (c == 0 ? RKMonokaiGreen :
                                           (c == 1 ? RKBaseGreenColor : RKMonokaiOrange)) : "",
-- 
2.43.0


From 174d21253829585eb97a1c353aaac6c07e608fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:08 +0000
Subject: [PATCH 240/240] fix: Look for a missing host of a reporter before
 reading it

---
 source/RKReporter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKReporter.c b/source/RKReporter.c
index 34b7b3e..58efb7e 100644
--- a/source/RKReporter.c
+++ b/source/RKReporter.c
@@ -347,7 +347,7 @@ RKReporter *RKReporterInitWithHost(const char *host) {
     engine->pulseStride = 10;
     engine->rayStride = 1;
     engine->memoryUsage = sizeof(RKReporter);
-    if (strlen(host) == 0 || host == NULL) {
+    if (host == NULL || strlen(host) == 0) {
         // sprintf(engine->host, "http://localhost:8000");
         sprintf(engine->host, "nohost");
     } else {
-- 
2.43.0

