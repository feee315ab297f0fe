From ee6c5c578f02737b13dc7e957ad45662f209ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 001/120] fix: write the timeline effects of a library effect
 instead of recursing on it forever

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..f54181d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
-- 
2.43.0


From 1ae2f24108402159082c7de1650f2742a6950e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 002/120] fix: write the children of a composite effect instead
 of recursing on it forever

---
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From f3f6272068d8c85ce9eadafb1d4faf8abfac0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 003/120] fix: write no more characters of a string than its
 length field announces

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From 7e368964d6436891a8914e6bc7e801610553d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 004/120] fix: place wavelet blocks read from a binary file at
 multiples of the block length

---
 source/IOHaptics/src/IOBinaryBands.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..a3b8114 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -108,7 +108,7 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
 }
 
 auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits, const unsigned int timescale)
+                                 std::vector<bool> &unusedBits, const unsigned int /*timescale*/)
     -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
@@ -118,8 +118,8 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      // the block length is in ticks
+      position = effectIndex * band.getBlockLengthOrDefault();
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From e1a381dc2d2b51de4ebed382f0eef4759d97649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 005/120] fix: encode arithmetic-coder input whose code is all
 zeros instead of throwing

---
 source/Spiht/src/ArithEnc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From 9c174a88ae917723d6c1baa11f42f67393a4bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 006/120] fix: size transformed wavelet blocks with the time
 scale of the experience

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..b42febe 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -64,8 +64,8 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  auto bl = (int)((double)band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
+                  (double)timescale);
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 7f538099c731fc616268d3d12d474c06f9d040d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 007/120] fix: scale and place the blocks of a decoded wavelet
 band in samples

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index b42febe..fe7ad2a 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -51,9 +51,10 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     double scalar = 0;
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
+    scalar /= pow(2, (double)bits);
     std::vector<double> block_time(bl);
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + (long)b * bl);
   }
   return sig_rec;
 }
-- 
2.43.0


From d3dd35f005299fb16f90e690881d969fae4af69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 008/120] fix: correct the spectrum by the block length of each
 psychohaptic model, not of the first one

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 9c5f552..465be71 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -81,9 +81,9 @@ auto PsychohapticModel::getSMR(std::vector<double> &block) -> modelResult {
     i = i * sqrt(2 * (double)bl);
   }
 
-  static double correction = 1 / sqrt((double)bl);
+  const double correction = 1 / sqrt((double)bl);
   std::transform(spect_complex.begin(), spect_complex.end() - (long long)bl, spect_mag.begin(),
-                 [](std::complex<double> a) {
+                 [correction](std::complex<double> a) {
                    return LOGFACTOR_SPECT *
                           log10(correction * sqrt(a.real() * a.real() + a.imag() * a.imag()));
                  });
-- 
2.43.0


From a16cd2874fc340732b03cfa23165b2990268672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 009/120] fix: render a band without effects as silence instead
 of reading before its first effect

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..1b96526 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -171,6 +171,9 @@ auto Band::EvaluationSwitch(double position, haptics::types::Effect *effect, int
 auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int timescale)
     -> std::vector<double> { // TODO: check impact of pad (which is in ms)
   std::vector<double> bandAmp(sampleCount, 0);
+  if (effects.empty()) {
+    return bandAmp;
+  }
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
-- 
2.43.0


From 073d17d5c1fe99b1c987d2d445420b53e131e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 010/120] fix: evaluate a transient keyframe without amplitude
 without looping forever

---
 source/Types/src/Effect.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..28db32b 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -322,13 +322,11 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
 
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
-    if (!it->getAmplitudeModulation().has_value()) {
-      continue;
+    if (it->getAmplitudeModulation().has_value()) {
+      res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
+                      transientDuration) *
+             it->getAmplitudeModulation().value();
     }
-
-    res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
-                    transientDuration) *
-           it->getAmplitudeModulation().value();
     it++;
   }
 
-- 
2.43.0


From 12e8be5d444023b09c886ba385961223b636b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 011/120] fix: accumulate the phase of a vectorial effect in
 the time scale of the experience

---
 source/Types/src/Effect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 28db32b..2a1e6cf 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -249,11 +249,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / static_cast<double>(timescale) *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
-- 
2.43.0


From 3efb0dc7d672f25aebd141a4b74bcfc8bac676b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 012/120] fix: keep the phase continuous after the last
 frequency keyframe of a vectorial effect

---
 source/Types/src/Effect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2a1e6cf..4f9af79 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -291,6 +291,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // The phase is already accumulated up to this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().value_or(0);
     }
   }
 
-- 
2.43.0


From e85698ce00dbbaf725be1a1ec65ff34cdf782506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 013/120] fix: render every sample of a wavelet block exactly
 once

---
 source/Types/src/Band.cpp   | 5 +++--
 source/Types/src/Effect.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 1b96526..c3e17c6 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -233,8 +233,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
     break;
   default:
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
-      double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
-                                     (pad * MS_2_S)); // position in ticks needed
+      double position =
+          static_cast<double>(timescale) * static_cast<double>(ti) / static_cast<double>(fs) -
+          timescale * (pad * MS_2_S); // position in ticks needed
       if (effects.empty() ||
           ((position > effects.back().getPosition() +
                            effects.back().getEffectTimeLength(
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 4f9af79..de765f9 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -39,6 +39,8 @@
 
 namespace haptics::types {
 
+constexpr double WAVELET_SAMPLE_EPSILON = 1e-6;
+
 [[nodiscard]] auto Effect::getId() const -> int { return id; }
 auto Effect::setId(int newId) -> void { id = newId; }
 
@@ -303,10 +305,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
 auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) -> double {
   double relativePosition = (position - this->getPosition()) * (double)fs /
                             (double)timescale; // relative position in samples rel. to fs
-  int index = std::floor(relativePosition);
+  // tolerate the rounding of positions that fall exactly on a sample
+  int index = static_cast<int>(std::floor(relativePosition + WAVELET_SAMPLE_EPSILON));
 
   auto samples = this->getWaveletSamples();
-  if (index >= (int)samples.size()) {
+  if (index < 0 || index >= (int)samples.size()) {
     return 0;
   }
   return samples[index];
-- 
2.43.0


From d333130884e674b42ffe5f91d3ae2dd93210b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 014/120] fix: place curve effects in samples by dividing ticks
 by the time scale

---
 source/Types/src/Band.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index c3e17c6..469cb1d 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -182,8 +182,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
+        keyframes[i].first =
+            static_cast<int>(static_cast<double>(myKeyframe.getRelativePosition().value()) * fs /
+                             timescale); // assuming position in ticks as input
         if (i > 0) {
           keyframes[i].first -= keyframes[0].first;
         }
@@ -217,8 +218,8 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 
         int count = 0;
         int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
+            static_cast<int>(static_cast<double>(e.getPosition()) * fs / timescale +
+                             pad * MS_2_S * fs); // position converted from ticks to samples
         if (position < 0) {
           count = -position;
           position = 0;
-- 
2.43.0


From 2931ed7d97724061a6774717f26e18cbd5ebf5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 015/120] fix: render curve effects made of two keyframes

---
 source/Types/src/Band.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 469cb1d..a6f5399 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -215,20 +215,19 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
-
-        int count = 0;
-        int position =
-            static_cast<int>(static_cast<double>(e.getPosition()) * fs / timescale +
-                             pad * MS_2_S * fs); // position converted from ticks to samples
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      }
+      int count = 0;
+      int position =
+          static_cast<int>(static_cast<double>(e.getPosition()) * fs / timescale +
+                           pad * MS_2_S * fs); // position converted from ticks to samples
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int i = position;
+           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From 9c0fa9d7cdf60e317001d59594b5d6b42d81c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 016/120] fix: render curve effects with none, one or an even
 number of keyframes within their samples

---
 source/Types/src/Band.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a6f5399..a85ef0d 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -177,6 +177,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
+      if (e.getKeyframesSize() == 0) {
+        continue;
+      }
       std::vector<std::pair<int, double>> keyframes(
           e.getKeyframesSize()); // keyframes converted to position relative to fs
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
@@ -192,7 +195,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       }
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-      if (keyframes.size() == 2) {
+      if (keyframes.size() == 1) {
+        effectAmp[0] = keyframes[0].second;
+      } else if (keyframes.size() == 2) {
         effectAmp = haptics::tools::linearInterpolation2(keyframes);
       } else {
         switch (getCurveTypeOrDefault()) {
@@ -225,7 +230,8 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         position = 0;
       }
       for (int i = position;
-           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+           (i < static_cast<int>(sampleCount)) && (count < static_cast<int>(effectAmp.size()));
+           i++) {
         bandAmp[i] += effectAmp[count];
         count++;
       }
-- 
2.43.0


From e6accd21d64696a2983ee7b89227f8e53ad04dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 017/120] fix: start the rendering of a curve effect at its
 first keyframe

---
 source/Types/src/Band.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a85ef0d..42751a3 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -193,6 +193,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         }
         keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
       }
+      const int firstSample = keyframes[0].first;
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
       if (keyframes.size() == 1) {
@@ -224,7 +225,8 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       int count = 0;
       int position =
           static_cast<int>(static_cast<double>(e.getPosition()) * fs / timescale +
-                           pad * MS_2_S * fs); // position converted from ticks to samples
+                           pad * MS_2_S * fs) + // position converted from ticks to samples
+          firstSample;
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From ebfc88008369f541d944e4e0e2225f65eae02a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 018/120] fix: bound the evaluation of a transient band by the
 transient duration in ticks

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 42751a3..6d5e443 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -127,7 +127,8 @@ auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLim
   if (effects.empty() ||
       ((this->bandType != types::BandType::WaveletWave) &&
        (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
+                       effects.back().getEffectTimeLength(bandType,
+                                                          Band::getTransientDuration(timescale)) ||
         position < 0))) {
     return 0;
   }
-- 
2.43.0


From 3a171a51be576de8a39efca62ac5aa8f0100ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 019/120] fix: advance along each segment of the cubic spline
 interpolation

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..879dad1 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -184,8 +184,8 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   double t = 0;
   int i = 0;
   while (t < x.back()) {
-    double delta = t - x[i];
     while (t <= x[i + 1]) {
+      double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
       output.push_back(amp);
       t += 1;
-- 
2.43.0


From 15daf3c14350b79898b620ad170ba25679212505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 020/120] fix: interpolate up to the last keyframe when it is
 at most one sample after the one before

---
 source/Tools/src/Tools.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 879dad1..9a1658d 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -97,13 +97,13 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
     double f1 = points[i + 1].second;
     while (t <= t1) {
-      double amp = (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
+      double amp = t1 > t0 ? (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0) : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
@@ -117,14 +117,16 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
     double f1 = points[i + 1].second;
     double h = t1 - t0;
     while (t <= t1) {
-      double amp = f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
+      double amp =
+          h > 0 ? f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3)
+                : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
@@ -183,7 +185,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> output;
   double t = 0;
   int i = 0;
-  while (t < x.back()) {
+  while (t <= x.back() && i < static_cast<int>(n)) {
     while (t <= x[i + 1]) {
       double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
@@ -396,7 +398,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   int i = 0;
   double amp = 0;
 
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -406,11 +408,12 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     while (t <= t1) {
       switch (curveType) {
       case types::CurveType::Cubic: {
-        amp = f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
+        amp = h > 0 ? f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3)
+                    : f1;
         break;
       }
       case types::CurveType::Linear: {
-        amp = (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
+        amp = h > 0 ? (f0 * (t1 - t) + f1 * (t - t0)) / h : f1;
         break;
       }
       default:
-- 
2.43.0


From cee40d564d04570f875137a38f33aaa91bac52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 021/120] fix: take the avatar id, not the id, when the
 metadata of a perception are replaced

---
 source/Types/src/Haptics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..bb79cdb 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,7 +75,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-- 
2.43.0


From 8d90e2f2dded5a0f874bc6648535844b1d1b8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 022/120] fix: replace the priority along with the other
 metadata of a perception, channel or band

---
 source/Types/src/Channel.cpp    | 3 +++
 source/Types/src/Haptics.cpp    | 3 +++
 source/Types/src/Perception.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..db69f3e 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -96,6 +96,9 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
+  if (newBand.getPriority().has_value()) {
+    bands[index].setPriority(newBand.getPriority().value());
+  }
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index bb79cdb..b389cc3 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -78,6 +78,9 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
+  if (newPerception.getPriority().has_value()) {
+    perceptions[index].setPriority(newPerception.getPriority().value());
+  }
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..a6accae 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -125,6 +125,9 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   channels[index].setId(newChannel.getId());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
+  if (newChannel.getPriority().has_value()) {
+    channels[index].setPriority(newChannel.getPriority().value());
+  }
   channels[index].setGain(newChannel.getGain());
   channels[index].setMixingWeight(newChannel.getMixingWeight());
   channels[index].setBodyPartMask(newChannel.getBodyPartMask());
-- 
2.43.0


From 3dae59493483760d0943da01876de5587c594a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 023/120] fix: give a factored effect an id that no effect of
 the library has

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index a6accae..37b5de4 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -345,6 +345,9 @@ auto Perception::refactorEffects() -> void {
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
           auto newId = static_cast<int>(getEffectLibrarySize());
+          while (getEffectById(newId).has_value()) {
+            newId++;
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From f125c01df980a9715d1ad8e31dd4e1f9510a853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 024/120] fix: never factor the blocks of a wavelet band, which
 differ in their bitstream

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 37b5de4..d1b40df 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -375,6 +375,9 @@ auto Perception::searchForEquivalentEffects(Effect &effect, int startingChannel)
     auto numBands2 = static_cast<int>(channel2.getBandsSize());
     for (int m = 0; m < numBands2; m++) {
       auto band2 = channel2.getBandAt(m);
+      if (band2.getBandType() == BandType::WaveletWave) {
+        continue;
+      }
       auto numEffects2 = static_cast<int>(band2.getEffectsSize());
       for (int n = 0; n < numEffects2; n++) {
         if (effect.isEquivalent(band2.getEffectAt(n))) {
-- 
2.43.0


From 394eb12b8fb2e7a6f5f2fa1b976f24098dbcd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 025/120] fix: tell effects of different semantics apart when
 factoring repeated effects

---
 source/Types/src/Effect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index de765f9..1e8e15e 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -165,7 +165,8 @@ auto Effect::addKeyframe(std::optional<int> position, std::optional<double> ampl
 
 auto Effect::isEquivalent(Effect &effect) -> bool {
   if (effectType != EffectType::Basis || effect.effectType != EffectType::Basis ||
-      phase != effect.getPhase() || baseSignal != effect.getBaseSignal()) {
+      phase != effect.getPhase() || baseSignal != effect.getBaseSignal() ||
+      semantic != effect.getSemantic()) {
     return false;
   }
 
-- 
2.43.0


From aa4ebd18b32adb0da18393c8e51721bf91f8cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 026/120] fix: resolve the references inside composite effects
 before the library is dropped

---
 source/Types/include/Perception.h |  3 +++
 source/Types/src/Perception.cpp   | 40 +++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..c5b2a50 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -158,6 +158,9 @@ public:
   auto getEffectById(int id) -> std::optional<Effect>;
 
 private:
+  // replaces a reference, and those in timelines, by the effects of the library they stand for
+  auto resolveReferences(Effect &effect, std::vector<int> &resolving) -> void;
+
   static constexpr int8_t DEFAULT_UNIT_EXPONENT = -3;
   static constexpr int8_t DEFAULT_PERCEPTION_UNIT_EXPONENT = 0;
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index d1b40df..a222c33 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -305,24 +306,39 @@ auto Perception::getEffectById(int id) -> std::optional<Effect> {
   return {};
 }
 
+auto Perception::resolveReferences(Effect &effect, std::vector<int> &resolving) -> void {
+  bool isReference = effect.getEffectType() == EffectType::Reference;
+  if (isReference) {
+    auto refId = effect.getId();
+    auto refEffect = getEffectById(refId);
+    if (!refEffect.has_value() ||
+        std::find(resolving.begin(), resolving.end(), refId) != resolving.end()) {
+      return;
+    }
+    Effect basisEffect(refEffect.value());
+    basisEffect.setPosition(effect.getPosition());
+    basisEffect.setId(-1);
+    effect = basisEffect;
+    resolving.push_back(refId);
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    resolveReferences(effect.getTimelineEffectAt(i), resolving);
+  }
+  if (isReference) {
+    resolving.pop_back();
+  }
+}
+
 auto Perception::linearizeLibrary() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
-    auto channel = getChannelAt(i);
+    auto &channel = getChannelAt(i);
     auto numBands = static_cast<int>(channel.getBandsSize());
     for (int j = 0; j < numBands; j++) {
-      auto band = channel.getBandAt(j);
+      auto &band = channel.getBandAt(j);
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
-        auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
-        }
+        std::vector<int> resolving;
+        resolveReferences(band.getEffectAt(k), resolving);
       }
     }
   }
-- 
2.43.0


From 79597563f542c883523b2e19062134de452a39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 027/120] fix: code wavelet streams whose bits are all zero
 instead of throwing

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..f0be1c1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
-- 
2.43.0


From a0958953cefd72393f49a82c6d3eb81789628b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 028/120] fix: write the default time scale when none is set,
 as files without one are refused

---
 source/IOHaptics/src/IOJson.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index f0be1c1..549cd41 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1248,9 +1248,7 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   jsonTree.AddMember("description",
                      rapidjson::Value(haptic.getDescription().c_str(), jsonTree.GetAllocator()),
                      jsonTree.GetAllocator());
-  if (haptic.getTimescale().has_value()) {
-    jsonTree.AddMember("timescale", haptic.getTimescale().value(), jsonTree.GetAllocator());
-  }
+  jsonTree.AddMember("timescale", haptic.getTimescaleOrDefault(), jsonTree.GetAllocator());
 
   auto jsonAvatars = rapidjson::Value(rapidjson::kArrayType);
   extractAvatars(haptic, jsonAvatars, jsonTree);
-- 
2.43.0


From 228a7680eb8c5de4ad5b2546437039041088221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 029/120] fix: refuse effect semantic schemes only when they
 are no URN

---
 source/IOHaptics/include/IOJson.h | 1 +
 source/IOHaptics/src/IOJson.cpp   | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 31eae46..15eb0b0 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -105,6 +105,7 @@ public:
 
   static auto versionCheck(const std::string &version, bool log) -> bool;
   static auto dateCheck(const std::string &date, bool log) -> bool;
+  static auto URNCheck(const std::string &urn) -> bool;
   static auto URICheck(const std::string &uri, bool log) -> bool;
   static auto schemaConformanceCheck(const rapidjson::Document &hjifFile,
                                      const std::string &filePath) -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 549cd41..3f77cda 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -92,6 +92,12 @@ auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
   return true;
 }
 
+auto IOJson::URNCheck(const std::string &urn) -> bool {
+  // RFC8141: urn:<namespace identifier>:<namespace specific string>
+  const std::regex txt_regex("^[uU][rR][nN]:[a-zA-Z0-9][a-zA-Z0-9-]{0,30}[a-zA-Z0-9]:.");
+  return std::regex_search(urn, txt_regex);
+}
+
 auto IOJson::dateCheck(const std::string &date, bool log) -> bool {
   const std::regex txt_regex("[+-]?[0-9]{4}(-[01][0-9](-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:?([0-5]["
                              "0-9](.[0-9]+)?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
@@ -279,9 +285,8 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  // TODO
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN && !URNCheck(semanticSchemeURN.value())) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From fa43f30ab01ab2099d637f1fb4519e3f1f06b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 030/120] fix: check that JSON members are present and of the
 expected type before reading them

---
 source/IOHaptics/src/IOJson.cpp | 49 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 3f77cda..834e3ed 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -641,9 +641,11 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   if (!schemaConformanceCheck(jsonTree, filePath)) {
     return false;
   }
-  if (!(jsonTree.HasMember("version") && jsonTree.HasMember("profile") &&
-        jsonTree.HasMember("level") && jsonTree.HasMember("date") &&
-        jsonTree.HasMember("description") && jsonTree.HasMember("timescale") &&
+  if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
+        jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
+        jsonTree.HasMember("level") && jsonTree["level"].IsUint() && jsonTree.HasMember("date") &&
+        jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
+        jsonTree["description"].IsString() && jsonTree.HasMember("timescale") &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
         jsonTree.HasMember("syncs") && jsonTree["syncs"].IsArray())) {
@@ -793,20 +795,13 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
-    if (effectType == types::EffectType::Reference) {
-      if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
-        std::cerr << "Missing or invalid effect id" << std::endl;
-        continue;
-      }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
-    } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
+    if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
+      std::cerr << "Missing or invalid effect id" << std::endl;
+      continue;
+    }
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
     }
 
     auto effectId = jsonEffect["id"].GetInt();
@@ -826,7 +821,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto semantic = std::string(jsonEffect["semantic_keywords"].GetString());
       effect.setSemantic(semantic);
     }
-    if (jsonEffect.HasMember("keyframes")) {
+    if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
 
@@ -861,7 +856,7 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
       std::cerr << "Missing or invalid channel mixing coefficient" << std::endl;
       continue;
     }
-    if (!IOJsonPrimitives::hasNumber(jsonChannel, "body_part_mask")) {
+    if (!IOJsonPrimitives::hasUint(jsonChannel, "body_part_mask")) {
       std::cerr << "Missing or invalid channel body part mask" << std::endl;
       continue;
     }
@@ -1008,22 +1003,18 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
+    }
     if (effectType == types::EffectType::Reference) {
       if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
         std::cerr << "Missing or invalid effect id" << std::endl;
         continue;
       }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
     } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
       if (band.getBandType() == types::BandType::WaveletWave) {
-        if (!jsonEffect.HasMember("wavelet_stream")) {
+        if (!jsonEffect.HasMember("wavelet_stream") || !jsonEffect["wavelet_stream"].IsString()) {
           std::cerr << "Missing wavelet_stream" << std::endl;
           continue;
         }
@@ -1050,7 +1041,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
-    if (jsonEffect.HasMember("wavelet_stream")) {
+    if (jsonEffect.HasMember("wavelet_stream") && jsonEffect["wavelet_stream"].IsString()) {
       loadingSuccess = loadingSuccess && loadBitstream(jsonEffect["wavelet_stream"], effect);
     }
 
-- 
2.43.0


From 69245d44eb30184e8ffd6d7f9c2a235ebe8841ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 031/120] fix: leave out JSON elements and members with unknown
 keywords instead of throwing

---
 source/IOHaptics/src/IOJson.cpp | 36 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 834e3ed..df83252 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -700,7 +700,9 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
       continue;
     }
     if (!jsonPerception.HasMember("perception_modality") ||
-        !jsonPerception["perception_modality"].IsString()) {
+        !jsonPerception["perception_modality"].IsString() ||
+        types::stringToPerceptionModality.count(
+            jsonPerception["perception_modality"].GetString()) == 0) {
       std::cerr << "Missing or invalid perception modality" << std::endl;
       continue;
     }
@@ -789,7 +791,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -812,7 +815,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) > 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -892,9 +896,11 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
     std::vector<std::string> bodyPartTargetString;
     if (IOJsonPrimitives::getStringArray(jsonChannel, "body_part_target", bodyPartTargetString)) {
       std::vector<types::BodyPartTarget> bodyPartTarget;
-      std::transform(bodyPartTargetString.begin(), bodyPartTargetString.end(),
-                     std::back_inserter(bodyPartTarget),
-                     [](const std::string &str) { return types::stringToBodyPartTarget.at(str); });
+      for (const auto &str : bodyPartTargetString) {
+        if (types::stringToBodyPartTarget.count(str) > 0) {
+          bodyPartTarget.push_back(types::stringToBodyPartTarget.at(str));
+        }
+      }
       channel.setBodyPartTarget(bodyPartTarget);
     }
 
@@ -939,7 +945,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
     }
     auto jsonBand = jbv.GetObject();
 
-    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString()) {
+    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString() ||
+        types::stringToBandType.count(jsonBand["band_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid band type" << std::endl;
       continue;
     }
@@ -969,7 +976,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
 
     types::Band band(bandType, lowerLimit, upperLimit);
 
-    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString()) {
+    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString() &&
+        types::stringToCurveType.count(jsonBand["curve_type"].GetString()) > 0) {
       types::CurveType curveType = types::stringToCurveType.at(jsonBand["curve_type"].GetString());
       band.setCurveType(curveType);
     }
@@ -997,7 +1005,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -1027,7 +1036,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) > 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -1066,7 +1076,8 @@ auto IOJson::loadAvatars(const rapidjson::Value &jsonAvatars, types::Haptics &ha
       std::cerr << "Missing or invalid avatar lod" << std::endl;
       continue;
     }
-    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString()) {
+    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString() ||
+        types::stringToAvatarType.count(jsonAvatar["type"].GetString()) == 0) {
       std::cerr << "Missing or invalid avatar type" << std::endl;
       continue;
     }
@@ -1151,7 +1162,8 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
     if (jsonReferenceDevice.HasMember("custom") && jsonReferenceDevice["custom"].IsNumber()) {
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString()) {
+    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString() &&
+        types::stringToActuatorType.count(jsonReferenceDevice["type"].GetString()) > 0) {
       referenceDevice.setType(
           types::stringToActuatorType.at(jsonReferenceDevice["type"].GetString()));
     }
-- 
2.43.0


From cc410de2a2e215b696dcd6c7f348ce4c2a6bd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 032/120] fix: refuse levels that only look valid modulo 256

---
 source/IOHaptics/src/IOJson.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index df83252..592fb99 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -39,6 +39,7 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 
@@ -656,6 +657,10 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
 
   auto version = std::string(jsonTree["version"].GetString());
   auto profile = std::string(jsonTree["profile"].GetString());
+  if (jsonTree["level"].GetUint() > std::numeric_limits<uint8_t>::max()) {
+    std::cerr << "Invalid level, possible values are 1 and 2." << std::endl;
+    return false;
+  }
   auto level = static_cast<uint8_t>(jsonTree["level"].GetUint());
   auto date = std::string(jsonTree["date"].GetString());
   auto description = std::string(jsonTree["description"].GetString());
-- 
2.43.0


From eed53f46ea7cf87d92c08c042437f2c62f4aba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 033/120] fix: visit every component when removing the empty
 ones from a stream

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..7c56cfa 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -623,14 +623,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  // from the last to the first, so that removing one leaves the others to visit in place
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From a42ad900c6121ce0235a8fc9199b6544ea545a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 034/120] fix: read the packets of a unit up to its last byte

---
 source/IOHaptics/src/IOStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7c56cfa..fc97d3c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -255,6 +255,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   index += UNIT_RESERVED;
 
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
+  unitLength += index; // the announced length leaves out the header
   while (index < unitLength) {
     if (!readMIHSPacket(packets, sreader, crc)) {
       return EXIT_FAILURE;
-- 
2.43.0


From e917deded8c936cb0b16abcd7b68090b7cf555a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 035/120] fix: look a channel of a stream up in its own
 perception

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..61ece50 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -260,7 +260,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index fc97d3c..4b683b4 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -706,7 +706,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -720,7 +720,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1808,7 +1808,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2219,7 +2219,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInHaptic(sreader.haptic, perceptionIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2630,13 +2630,11 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int {
+  types::Perception &perception = haptic.getPerceptionAt(perceptionIndex);
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From 5c1f5c59d8120b2460db4d4bfa4ddfa832404813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 036/120] fix: packetise every effect of a band that has
 keyframes in the time span of the packet

---
 source/IOHaptics/src/IOStream.cpp | 33 +++++++++++--------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 4b683b4..b3f5ffb 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1974,9 +1974,10 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Fills one packet, returns true once the last keyframes of the band are reached
+  bool endBand = true;
+  swriter.auType = AUType::RAU;
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -1991,40 +1992,28 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
       bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
-      }
+      // the effects after this one may start in this packet as well
+      endBand &= writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect);
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
-      }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
+        if (!isRAU) {
+          swriter.auType = AUType::DAU;
+        }
       }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
       if (effect.getPosition() >= swriter.time &&
           effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
+      } else if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
+        endBand = false;
       }
     }
   }
-  return true;
+  return endBand;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From 6ea4e913f837def246a9afbc7d788041133fe2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 037/120] fix: cut the strings of a stream to what their length
 field announces

---
 source/IOHaptics/src/IOStream.cpp | 88 ++++---------------------------
 1 file changed, 9 insertions(+), 79 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b3f5ffb..75f4611 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -855,45 +855,15 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
 }
 
 auto IOStream::writeMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool {
-  std::bitset<MDEXP_VERSION> versionCountBits(haptic.getVersion().size());
-  const std::string versionCountStr = versionCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(versionCountStr, bitstream);
-  for (auto c : haptic.getVersion()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
-
-  std::bitset<MDEXP_PROFILE_SIZE> profileCountBits(haptic.getProfile().size());
-  const std::string profileCountStr = profileCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(profileCountStr, bitstream);
-  for (auto c : haptic.getProfile()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getVersion(), bitstream);
+  IOBinaryPrimitives::writeString(haptic.getProfile(), bitstream);
 
   std::bitset<MDEXP_LEVEL> levelBits(haptic.getLevel());
   std::string levelStr = levelBits.to_string();
   IOBinaryPrimitives::writeStrBits(levelStr, bitstream);
 
-  std::bitset<MDEXP_DATE> dateCountBits(haptic.getDate().size());
-  std::string dateCountStr = dateCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(dateCountStr, bitstream);
-  for (auto c : haptic.getDate()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
-  std::bitset<MDEXP_DESC_SIZE> descSizeBits(haptic.getDescription().length());
-  const std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : haptic.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    const std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getDate(), bitstream);
+  IOBinaryPrimitives::writeString(haptic.getDescription(), bitstream);
 
   std::bitset<MDEXP_PERC_COUNT> perceCountBits(haptic.getPerceptionsSize());
   std::string perceCountStr = perceCountBits.to_string();
@@ -959,16 +929,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    std::string mesh = avatar.getMesh().value();
-    std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
-    std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
-    IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
-
-    for (char &c : mesh) {
-      std::bitset<BYTE_SIZE> descBits(c);
-      std::string cStr = descBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(avatar.getMesh().value(), bitstream);
   }
   return true;
 }
@@ -1000,15 +961,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
   std::string percePriorityStr = percePriorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(percePriorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.perception.getDescription().size());
-  std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : swriter.perception.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.perception.getDescription(), bitstream);
 
   std::bitset<MDPERCE_MODALITY> modalityBits(
       static_cast<int>(swriter.perception.getPerceptionModality()));
@@ -1028,14 +981,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, bitstream);
-    std::bitset<MDPERCE_SCHEME_LENGTH> schemeLengthBits(schemeStr.size());
-    std::string shemeLengthStr = schemeLengthBits.to_string();
-    IOBinaryPrimitives::writeStrBits(shemeLengthStr, bitstream);
-    for (auto c : schemeStr) {
-      std::bitset<MDPERCE_SCHEME_CHAR> cBits(c);
-      const std::string cStr = cBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(schemeStr, bitstream);
   } else {
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(0);
     std::string flagSemanticStr = flagSemanticBits.to_string();
@@ -1315,15 +1261,7 @@ auto IOStream::writeReferenceDevice(types::ReferenceDevice &refDevice, std::vect
   std::string idStr = idBits.to_string();
   IOBinaryPrimitives::writeStrBits(idStr, bitstream);
 
-  std::bitset<REFDEV_NAME_LENGTH> nameLengthBits(refDevice.getName().size());
-  std::string nameLengthStr = nameLengthBits.to_string();
-  IOBinaryPrimitives::writeStrBits(nameLengthStr, bitstream);
-
-  for (char &c : refDevice.getName()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(refDevice.getName(), bitstream);
 
   std::bitset<REFDEV_BODY_PART_MASK> bodyPartMaskBits(refDevice.getBodyPartMask().value_or(0));
   std::string bodypartMaskStr = bodyPartMaskBits.to_string();
@@ -1551,15 +1489,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
   std::string priorityStr = priorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(priorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.channel.getDescription().size());
-  valueStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-
-  for (char &c : swriter.channel.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    valueStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.channel.getDescription(), bitstream);
 
   std::bitset<REFDEV_ID> refDevID(swriter.channel.getReferenceDeviceId().value_or(-1));
   valueStr = refDevID.to_string();
-- 
2.43.0


From 9d49bfe71ea54a71d759ee965e0e3cf14a2820bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 038/120] fix: write the sample count of a streamed channel
 whatever its sampling frequency

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 75f4611..bdbb9a5 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1547,7 +1547,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
     }
   }
 
-  int freqSampling = static_cast<int>(swriter.channel.getFrequencySampling().value_or(0));
+  uint32_t freqSampling = swriter.channel.getFrequencySampling().value_or(0);
   std::bitset<MDCHANNEL_FREQ_SAMPLING> maxFreqBits(freqSampling);
   valueStr = maxFreqBits.to_string();
   IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-- 
2.43.0


From 8b803fca3df915117cc1d643e54ae2b772174ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 039/120] fix: add streamed keyframes to the basis effect with
 their id, never to a reference

---
 source/IOHaptics/src/IOStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index bdbb9a5..c96b29e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2647,7 +2647,8 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
                                           .getBandAt(bandIndex)
                                           .getEffectAt(i);
 
-        if (effect.getId() == hapticEffect.getId()) {
+        if (effect.getId() == hapticEffect.getId() &&
+            hapticEffect.getEffectType() == types::EffectType::Basis) {
           for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
             hapticEffect.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
           }
-- 
2.43.0


From 3170469a8ea772bde05b8f431d70d7e9bdba7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 040/120] fix: write the wavelet block length nearest to the
 one in ticks, which may be rounded

---
 source/IOHaptics/src/IOBinaryBands.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index a3b8114..e7d0309 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <cmath>
 #include <limits>
 
 namespace haptics::io {
@@ -87,8 +88,9 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
     auto blockLength_samples =
-        (int)((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
-    auto blockLength_code = (int)log2(blockLength_samples) - 4;
+        (double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit();
+    // the length in ticks may be rounded
+    auto blockLength_code = (int)std::lround(log2(blockLength_samples)) - 4;
     if (blockLength_code < 0) {
       std::cerr << "wavelet blocklength too small" << std::endl;
     }
-- 
2.43.0


From 02199043293769690f39868508c2a64805e6a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 041/120] fix: stream the block length of a wavelet band as a
 power of two of samples, as in files

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 31 +++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 61ece50..aee6306 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -203,7 +203,7 @@ private:
                                         std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+                                types::Effect &effect, int &length) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c96b29e..c4c45e7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <cmath>
 
 namespace haptics::io {
 
@@ -1707,8 +1708,12 @@ auto IOStream::writeMetadataBand(StreamWriter &swriter, std::vector<bool> &bitst
     std::string curveTypeStr = curveTypeBits.to_string();
     IOBinaryPrimitives::writeStrBits(curveTypeStr, bitstream);
   } else if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
-    std::bitset<MDBAND_BLK_LEN> winLengthBits(
-        static_cast<uint8_t>(swriter.bandStream.band.getBlockLengthOrDefault()));
+    // power of two of the samples of a block, as in the binary format
+    auto blockLengthSamples =
+        static_cast<double>(swriter.bandStream.band.getBlockLengthOrDefault()) /
+        static_cast<double>(swriter.timescale) *
+        static_cast<double>(swriter.bandStream.band.getUpperFrequencyLimit());
+    std::bitset<MDBAND_BLK_LEN> winLengthBits(std::lround(std::log2(blockLengthSamples)) - 4);
     std::string winLengthStr = winLengthBits.to_string();
     IOBinaryPrimitives::writeStrBits(winLengthStr, bitstream);
   }
@@ -1749,19 +1754,27 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
     sreader.bandStream.band.setPriority(priority);
   }
 
+  int blockLengthCode = 0;
   int bandType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BAND_TYPE);
   sreader.bandStream.band.setBandType(static_cast<types::BandType>(bandType));
   if (sreader.bandStream.band.getBandType() == types::BandType::Curve) {
     int curveType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_CURVE_TYPE);
     sreader.bandStream.band.setCurveType(static_cast<types::CurveType>(curveType));
   } else if (sreader.bandStream.band.getBandType() == types::BandType::WaveletWave) {
-    int windowLength = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BLK_LEN);
-    sreader.bandStream.band.setBlockLength(windowLength);
+    blockLengthCode = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BLK_LEN);
   }
   int lowFreq = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_LOW_FREQ);
   sreader.bandStream.band.setLowerFrequencyLimit(lowFreq);
   int upFreq = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_UP_FREQ);
   sreader.bandStream.band.setUpperFrequencyLimit(upFreq);
+  if (sreader.bandStream.band.getBandType() == types::BandType::WaveletWave) {
+    if (upFreq == 0) {
+      return false;
+    }
+    const unsigned int blockLengthSamples = 1U << static_cast<unsigned int>(blockLengthCode + 4);
+    sreader.bandStream.band.setBlockLength(static_cast<int>(
+        blockLengthSamples * sreader.timescale / static_cast<unsigned int>(upFreq)));
+  }
 
   // read effects count, unused but could be used for check
   IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_EFFECT_COUNT);
@@ -2163,8 +2176,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
+      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx);
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2309,8 +2321,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
-    -> bool {
+                                 types::Effect &effect, int &length) -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   effect.setId(id);
@@ -2328,8 +2339,8 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
+  // the block length is in ticks
+  int effectPos = band.getBlockLengthOrDefault() * static_cast<int>(band.getEffectsSize());
   effect.setPosition(effectPos);
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
-- 
2.43.0


From cd9f0f1c2fba16f665e85aee78615cbb28d54ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 042/120] fix: stream every block of a wavelet band, with its
 own id and semantic, in the unit it starts in

---
 source/IOHaptics/include/IOStream.h |  4 ++--
 source/IOHaptics/src/IOStream.cpp   | 31 +++++++++++++----------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index aee6306..a76b648 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -200,8 +200,8 @@ private:
                                  std::vector<std::vector<bool>> bufPacketBitstream,
                                  std::vector<bool> &packetBits) -> std::vector<bool>;
   static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                        std::vector<bool> &packetBits, StreamWriter &swriter)
-      -> std::vector<bool>;
+                                        std::vector<bool> &packetBits, StreamWriter &swriter,
+                                        types::Effect &effect) -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
                                 types::Effect &effect, int &length) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c4c45e7..121342d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1864,12 +1864,16 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
+    const auto duration = static_cast<int>(swriter.packetDuration);
+    for (int i = 0; i < static_cast<int>(bufPacketBitstream.size()); i++) {
       swriter.auType = AUType::RAU;
+      // start of the unit, whose duration is common to all the bands, in which the block starts
+      swriter.time =
+          i * static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault()) / duration * duration;
       packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
+      packetBits = writeWaveletPayloadPacket(bufPacketBitstream[i], packetBits, swriter,
+                                             swriter.bandStream.band.getEffectAt(i));
       bitstreams.push_back(packetBits);
-      swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
     }
   } else {
     while (!createPayloadPacket(swriter, bufPacketBitstream)) {
@@ -1900,18 +1904,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
@@ -1983,13 +1980,13 @@ auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
 }
 
 auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                         std::vector<bool> &packetBits, StreamWriter &swriter)
-    -> std::vector<bool> {
+                                         std::vector<bool> &packetBits, StreamWriter &swriter,
+                                         types::Effect &effect) -> std::vector<bool> {
   std::bitset<DB_EFFECT_COUNT> fxCountBits(1);
   std::string fxCountStr = fxCountBits.to_string();
   IOBinaryPrimitives::writeStrBits(fxCountStr, packetBits);
 
-  int id = getNextEffectId(swriter.effectsId);
+  int id = effect.getId() != -1 ? effect.getId() : getNextEffectId(swriter.effectsId);
   std::bitset<EFFECT_ID> effectIDBits(static_cast<int>(id));
   std::string effectIDStr = effectIDBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectIDStr, packetBits);
@@ -1998,13 +1995,13 @@ auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
   std::string effectTypeStr = effectTypeBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  if (swriter.bandStream.band.getEffectAt(0).getSemantic().has_value()) {
+  if (effect.getSemantic().has_value()) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
 
-    types::EffectSemantic semantic = types::stringToEffectSemantic.at(
-        swriter.bandStream.band.getEffectAt(0).getSemantic().value());
+    types::EffectSemantic semantic =
+        types::stringToEffectSemantic.at(effect.getSemantic().value());
     std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
         static_cast<int>(semantic));
     std::string semanticStr = semanticBits.to_string();
-- 
2.43.0


From e1632f10c7ae2b76af349e1232b8745de1106b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 043/120] fix: stream the bands of spatial modalities in the
 format in which they are read

---
 source/IOHaptics/src/IOStream.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 121342d..69adb7a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -36,6 +36,7 @@
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
 #include <cmath>
+#include <limits>
 
 namespace haptics::io {
 
@@ -2076,18 +2077,13 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
 
 auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  swriter.auType = AUType::RAU;
-  swriter.time = 0;
-
-  std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
-  bitstream.push_back(bandBitstream);
-
-  return true;
+  // positions are no times here, all the effects are sent together at the start
+  const unsigned int packetDuration = swriter.packetDuration;
+  swriter.packetDuration = static_cast<unsigned int>(std::numeric_limits<int>::max());
+  linearizeTimeline(swriter.bandStream.band);
+  bool success = packetizeBand(swriter, bitstream);
+  swriter.packetDuration = packetDuration;
+  return success;
 }
 auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream) -> bool {
 
@@ -2114,13 +2110,12 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         swriter.bandStream = bandStream;
         if (spatial) {
           writeSpatialData(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
         } else {
           linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
-          bandBitstream.clear();
         }
+        expBitstream.push_back(bandBitstream);
+        bandBitstream.clear();
       }
     }
   }
-- 
2.43.0


From 4d594059308dc4e9928f3b55a0c7e36fd4817060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 044/120] fix: assign streamed effects ids that no library
 effect or effect of a timeline has

---
 source/IOHaptics/src/IOStream.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 69adb7a..581559d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -1921,12 +1922,7 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
-      int nextId = 0;
-      if (!swriter.effectsId.empty()) {
-        nextId = *max_element(swriter.effectsId.begin(), swriter.effectsId.end()) + 1;
-      }
-      effect.setId(nextId);
-      swriter.effectsId.push_back(nextId);
+      effect.setId(getNextEffectId(swriter.effectsId));
     }
 
     std::vector<bool> bufEffect = std::vector<bool>();
@@ -2681,10 +2677,14 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
   std::vector<int> effectsId = std::vector<int>();
   for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
     types::Perception perception = haptic.getPerceptionAt(i);
+    for (auto j = 0; j < static_cast<int>(perception.getEffectLibrarySize()); j++) {
+      effectsId.push_back(perception.getBasisEffectAt(j).getId());
+    }
     for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
       types::Channel channel = perception.getChannelAt(j);
       for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
         types::Band band = channel.getBandAt(k);
+        linearizeTimeline(band);
         for (int l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
           types::Effect effect = band.getEffectAt(l);
           if (effect.getId() != -1) {
@@ -2710,6 +2710,12 @@ auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
   if (!effectsId.empty()) {
     nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
   }
+  if (nextId >= 1 << EFFECT_ID) {
+    nextId = 0;
+    while (std::find(effectsId.begin(), effectsId.end(), nextId) != effectsId.end()) {
+      nextId++;
+    }
+  }
   effectsId.push_back(nextId);
   return nextId;
 }
-- 
2.43.0


From 78b9643cf521fadd75fb2b9fda30e0bab95bc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 045/120] fix: report a stream that cannot be read, and keep
 the time of units left out while waiting

---
 source/IOHaptics/src/IOStream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 581559d..a337131 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -65,13 +65,15 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
   int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
@@ -261,7 +263,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   unitLength += index; // the announced length leaves out the header
   while (index < unitLength) {
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -2124,7 +2126,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // left out, the rest of the unit and its duration still count
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From 1847d3e98e99679f003315d1c49430f6252784be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 046/120] fix: replace the avatars of a stream whose
 initialization is repeated instead of adding them again

---
 source/IOHaptics/src/IOStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a337131..64f4219 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -914,8 +914,13 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
   if (!readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
-  for (auto avatar : avatarList) {
-    haptic.addAvatar(avatar);
+  // the metadata may be repeated
+  for (int i = 0; i < static_cast<int>(avatarList.size()); i++) {
+    if (i < static_cast<int>(haptic.getAvatarsSize())) {
+      haptic.getAvatarAt(i) = avatarList[i];
+    } else {
+      haptic.addAvatar(avatarList[i]);
+    }
   }
   return true;
 }
-- 
2.43.0


From 8432ac19eb6bd6fbd167668bfdda17825a37681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 047/120] fix: check the index of a streamed band against the
 number of bands

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 64f4219..b4e1099 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -730,7 +730,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
-            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <
+            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <=
             bandIndex) {
       sreader.haptic.getPerceptionAt(perceIndex)
           .getChannelAt(channelIndex)
-- 
2.43.0


From 04d9afc40e39e3b809980d273c7225cc24e1b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 048/120] fix: keep the time of a timing packet in ticks, as
 the other times of a stream

---
 source/IOHaptics/src/IOStream.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b4e1099..f3c8940 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -685,7 +685,6 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
     readTiming(sreader, payload);
-    sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
     return true;
   }
   case (MIHSPacketType::MetadataHaptics): {
-- 
2.43.0


From 92956af57773a1022cc22d34f5877ec69d8158dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 049/120] fix: give a perception no semantic scheme when its
 replaced metadata have none

---
 source/Types/include/Perception.h | 1 +
 source/Types/src/Haptics.cpp      | 8 ++++++--
 source/Types/src/Perception.cpp   | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index c5b2a50..2e3059c 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -112,6 +112,7 @@ public:
   [[nodiscard]] auto getEffectSemanticSchemeOrDefault() const -> std::string;
   [[nodiscard]] auto getEffectSemanticScheme() const -> std::optional<std::string>;
   auto setEffectSemanticScheme(std::string &newEffectSemantic) -> void;
+  auto clearEffectSemanticScheme() -> void;
   [[nodiscard]] auto getId() const -> int;
   auto setId(int newId) -> void;
   [[nodiscard]] auto getDescription() const -> std::string;
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index b389cc3..bc4a27b 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -84,8 +84,12 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  if (newPerception.getEffectSemanticScheme().has_value()) {
+    auto semantic = newPerception.getEffectSemanticScheme().value();
+    perceptions[index].setEffectSemanticScheme(semantic);
+  } else {
+    perceptions[index].clearEffectSemanticScheme();
+  }
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index a222c33..8460d1c 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -57,6 +57,7 @@ auto Perception::setAvatarId(int newAvatarId) -> void { avatarId = newAvatarId;
 auto Perception::setEffectSemanticScheme(std::string &newEffectSemantic) -> void {
   effectSemanticScheme = newEffectSemantic;
 }
+auto Perception::clearEffectSemanticScheme() -> void { effectSemanticScheme = std::nullopt; }
 
 [[nodiscard]] auto Perception::getDescription() const -> std::string { return description; }
 
-- 
2.43.0


From d8edafea04e9856a646b8a97586a2fb3cbc6e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 050/120] fix: repeat the initialization of a stream at every
 sync, the first one included, wherever it lies in a unit

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 55 +++++++++++++----------------
 2 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index a76b648..439fde3 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -299,7 +299,7 @@ private:
   static auto addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool;
   static auto silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) -> void;
 
-  static auto getNextSync(types::Haptics &haptic, types::Sync &sync, int &idxs) -> bool;
+  static auto getNextSync(types::Haptics &haptic, types::Sync &sync, int time) -> bool;
 };
 } // namespace haptics::io
 #endif // IOSTREAM_H
\ No newline at end of file
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index f3c8940..53e005e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -144,8 +144,16 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   writeMIHSUnit(MIHSUnitType::Initialization, initPackets, initUnit, swriter);
   bitstream.push_back(initUnit);
   types::Sync nextSync;
-  int syncIdx = 0;
-  getNextSync(haptic, nextSync, syncIdx);
+  bool hasSync = getNextSync(haptic, nextSync, swriter.time);
+  // repeats the initialization at the first unit that starts at or after the next sync
+  auto writeSync = [&]() {
+    if (hasSync && swriter.time >= nextSync.getTimestamp()) {
+      std::vector<bool> syncUnit = std::vector<bool>();
+      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
+      bitstream.push_back(syncUnit);
+      hasSync = getNextSync(haptic, nextSync, swriter.time);
+    }
+  };
 
   std::vector<std::vector<bool>> dataPackets = std::vector<std::vector<bool>>();
   writeMIHSPacket(MIHSPacketType::Data, swriter, dataPackets);
@@ -159,6 +167,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
       writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
       if (silentUnit.size() > UNIT_TYPE) {
         bitstream.push_back(silentUnit);
+        writeSync();
       }
       first = false;
     }
@@ -176,23 +185,13 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         std::vector<bool> temporalUnit = std::vector<bool>();
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
         bitstream.push_back(temporalUnit);
-        if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-          std::vector<bool> syncUnit = std::vector<bool>();
-          writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-          getNextSync(haptic, nextSync, syncIdx);
-          bitstream.push_back(syncUnit);
-        }
+        writeSync();
         if (swriter.time != packetTS) {
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
             bitstream.push_back(silentUnit);
-            if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-              std::vector<bool> syncUnit = std::vector<bool>();
-              writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-              getNextSync(haptic, nextSync, syncIdx);
-              bitstream.push_back(syncUnit);
-            }
+            writeSync();
           }
         }
         bufUnit.clear();
@@ -205,12 +204,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
     writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
     bitstream.push_back(temporalUnit);
     bufUnit.clear();
-    if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
-      std::vector<bool> syncUnit = std::vector<bool>();
-      writeMIHSUnit(MIHSUnitType::Initialization, initPackets, syncUnit, swriter);
-      getNextSync(haptic, nextSync, syncIdx);
-      bitstream.push_back(syncUnit);
-    }
+    writeSync();
   }
   silentUnitSyncFlag(bitstream);
   return true;
@@ -2736,18 +2730,17 @@ auto IOStream::padToByteBoundary(std::vector<bool> &bitstream) -> void {
   }
 }
 
-auto IOStream::getNextSync(types::Haptics &haptic, types::Sync &sync, int &idx) -> bool {
-  if (idx >= static_cast<int>(haptic.getSyncsSize()) - 1) {
-    idx = -1;
-    return false;
-  }
-  if (idx == 0 && haptic.getSyncsAt(0).getTimestamp() == 0) {
-    if (haptic.getSyncsSize() == 1) {
-      idx = -1;
-      return false;
+auto IOStream::getNextSync(types::Haptics &haptic, types::Sync &sync, int time) -> bool {
+  // the earliest sync after the given time
+  bool found = false;
+  for (int i = 0; i < static_cast<int>(haptic.getSyncsSize()); i++) {
+    auto &candidate = haptic.getSyncsAt(i);
+    if (candidate.getTimestamp() > time &&
+        (!found || candidate.getTimestamp() < sync.getTimestamp())) {
+      sync = candidate;
+      found = true;
     }
   }
-  sync = haptic.getSyncsAt(++idx);
-  return true;
+  return found;
 }
 } // namespace haptics::io
\ No newline at end of file
-- 
2.43.0


From 7743cf8d4475ab9559707d827ee123d6a5de2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 051/120] fix: announce the actual duration of packets in the
 initialization of a stream

---
 source/IOHaptics/src/IOStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 53e005e..0377825 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -133,6 +133,7 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
   StreamWriter swriter;
   swriter.haptic = haptic;
   swriter.packetDuration = packetDuration;
+  swriter.nominalDuration = packetDuration;
   swriter.timescale = haptic.getTimescaleOrDefault();
   std::vector<std::vector<bool>> initPackets = std::vector<std::vector<bool>>();
   writeMIHSPacket(MIHSPacketType::MetadataHaptics, swriter, initPackets);
-- 
2.43.0


From bb20596b2c54f8c6dab8ddd167cda1b947de9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 052/120] fix: place the first wavelet block of a stream joined
 later at its time

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 439fde3..20a720e 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -203,7 +203,7 @@ private:
                                         std::vector<bool> &packetBits, StreamWriter &swriter,
                                         types::Effect &effect) -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length) -> bool;
+                                types::Effect &effect, int &length, int time) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 0377825..840fd3c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2165,7 +2165,8 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx);
+      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
+                                  static_cast<int>(sreader.time));
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2310,7 +2311,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length) -> bool {
+                                 types::Effect &effect, int &length, int time) -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   effect.setId(id);
@@ -2328,9 +2329,14 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  // the block length is in ticks
-  int effectPos = band.getBlockLengthOrDefault() * static_cast<int>(band.getEffectsSize());
-  effect.setPosition(effectPos);
+  // the block length is in ticks, and the first block read may not be the first of the band
+  const int blockLength = band.getBlockLengthOrDefault();
+  const auto effectCount = static_cast<int>(band.getEffectsSize());
+  if (effectCount > 0) {
+    effect.setPosition(band.getEffectAt(effectCount - 1).getPosition() + blockLength);
+  } else if (blockLength > 0) {
+    effect.setPosition((time + blockLength - 1) / blockLength * blockLength);
+  }
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
   length += idx;
-- 
2.43.0


From 1c0c54651b2d5f40ac10c93da72361519d68d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 053/120] fix: write the checksum of a single packet, and the
 number of packets of global checksums only

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 28 ++++++++++++++--------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 20a720e..7472c3a 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -215,7 +215,7 @@ private:
   static auto writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool;
 
   static auto writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<bool> &packetCRC,
-                       int crcLevel) -> bool;
+                       int crcLevel, bool global) -> bool;
 
   static auto computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polynomial) -> bool;
 
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 840fd3c..5d30c58 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -581,7 +581,11 @@ auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter &swri
     if (mihsPacketType == MIHSPacketType::CRC32 || mihsPacketType == MIHSPacketType::GlobalCRC32) {
       crcLevel = 1;
     }
-    writeCRC(bitstream, mihsPacketPayload, crcLevel);
+    bool global = mihsPacketType == MIHSPacketType::GlobalCRC16 ||
+                  mihsPacketType == MIHSPacketType::GlobalCRC32;
+    if (!writeCRC(bitstream, mihsPacketPayload, crcLevel, global)) {
+      return false;
+    }
     writeMIHSPacketHeader(mihsPacketType, static_cast<int>(mihsPacketPayload.size()),
                           mihsPacketHeader);
     mihsPacketHeader.insert(mihsPacketHeader.end(), mihsPacketPayload.begin(),
@@ -2176,7 +2180,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
 }
 
 auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<bool> &packetCRC,
-                        int crcLevel) -> bool {
+                        int crcLevel, bool global) -> bool {
   std::vector<bool> polynomial = std::vector<bool>();
   if (crcLevel == 0) {
     std::bitset<CRC16_NB_BITS> polynomialBits(CRC16_POLYNOMIAL);
@@ -2194,23 +2198,19 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
   }
 
   std::vector<bool> quotient = std::vector<bool>();
-  int nbPackets = 0;
-  if (bitstream.empty()) {
-    quotient = bitstream[0];
-    nbPackets++;
-  } else if (bitstream.size() > 1) {
-    for (auto &packet : bitstream) {
-      quotient.insert(quotient.end(), packet.begin(), packet.end());
-      nbPackets++;
-    }
-  } else {
+  // only a global checksum tells how many packets it protects
+  const size_t maxPackets = global ? (1U << static_cast<unsigned int>(GCRC_NB_PACKET)) - 1 : 1;
+  if (bitstream.size() > maxPackets) {
     return false;
   }
+  for (auto &packet : bitstream) {
+    quotient.insert(quotient.end(), packet.begin(), packet.end());
+  }
   if (quotient.empty()) {
     return false;
   }
-  if (nbPackets > 1) {
-    std::bitset<GCRC_NB_PACKET> nbPacketsBits(nbPackets);
+  if (global) {
+    std::bitset<GCRC_NB_PACKET> nbPacketsBits(bitstream.size());
     std::string nbPacketsStr = nbPacketsBits.to_string();
     IOBinaryPrimitives::writeStrBits(nbPacketsBits.to_string(), packetCRC);
   }
-- 
2.43.0


From 5c1be78ad848488f4136651b5cf375564f6a60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 054/120] fix: check a checksum once, over the packets in their
 order

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 5d30c58..01aecc9 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2250,14 +2250,14 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
 
 auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) -> bool {
   std::vector<bool> protectedPackets = std::vector<bool>();
-  if (bitstream.size() < crc.nbPackets) {
+  const size_t nbPackets = crc.nbPackets;
+  crc.nbPackets = 0; // checked once
+  if (bitstream.size() < nbPackets) {
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
-                            bitstream[index].end());
-    index++;
+  for (size_t i = 0; i < nbPackets; i++) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[i].begin(), bitstream[i].end());
   }
   bool res = false;
   if (crc.value16 > 0) {
-- 
2.43.0


From 089bed32f9f513a901d4d2096a9fb27a6749f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 055/120] fix: check a checksum whose value is zero

---
 source/IOHaptics/include/IOStream.h | 1 +
 source/IOHaptics/src/IOStream.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 7472c3a..1ed8701 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -84,6 +84,7 @@ public:
     uint8_t nbPackets = 0;
     uint16_t value16 = 0;
     uint32_t value32 = 0;
+    bool wide = false; // whether value32 is the one to check
   };
 
   struct StreamWriter {
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 01aecc9..7aa2c10 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2225,24 +2225,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
     crc.nbPackets = 1;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.wide = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.wide = true;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.wide = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.wide = true;
     return true;
   }
   return false;
@@ -2260,7 +2264,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     protectedPackets.insert(protectedPackets.end(), bitstream[i].begin(), bitstream[i].end());
   }
   bool res = false;
-  if (crc.value16 > 0) {
+  if (!crc.wide) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2275,7 +2279,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From 5fc6f9e94a3a12dd5f855261d1f007897da4e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 056/120] fix: order the transients of an AHAP pattern by time

---
 source/Encoder/src/AhapEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..b3e525d 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -148,6 +148,10 @@ namespace haptics::encoder {
   types::Band myBand =
       types::Band(types::BandType::Transient, MIN_AHAP_FREQUENCY, MAX_AHAP_FREQUENCY);
   types::Effect transientEffect;
+  std::stable_sort(transients.begin(), transients.end(),
+                   [](const types::Effect &a, const types::Effect &b) {
+                     return a.getPosition() < b.getPosition();
+                   });
   for (types::Effect e : transients) {
     auto pos = e.getPosition();
     for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-- 
2.43.0


From ae2ba37c5f985cd347f773a6761708f60a48557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 057/120] fix: add no empty transient effect for an AHAP
 pattern without transients

---
 source/Encoder/src/AhapEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b3e525d..afabfc1 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -160,8 +160,8 @@ namespace haptics::encoder {
       transientEffect.addKeyframe(keyframe);
     }
   }
-  myBand.addEffect(transientEffect);
-  if (myBand.getEffectsSize() > 0) {
+  if (transientEffect.getKeyframesSize() > 0) {
+    myBand.addEffect(transientEffect);
     myChannel.addBand(myBand);
   }
 
-- 
2.43.0


From a5e0a3ae022cf13ae5f1623a5b39b1058506233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 058/120] fix: order the control points of all curves of an
 AHAP pattern by time

---
 source/Encoder/src/AhapEncoder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index afabfc1..b4921d9 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -115,6 +115,12 @@ namespace haptics::encoder {
     }
   }
 
+  auto isEarlier = [](const std::pair<int, double> &a, const std::pair<int, double> &b) {
+    return a.first < b.first;
+  };
+  std::stable_sort(amplitudes.begin(), amplitudes.end(), isEarlier);
+  std::stable_sort(frequencies.begin(), frequencies.end(), isEarlier);
+
   for (auto &e : pattern) {
 
     if (e.HasMember("Event")) {
-- 
2.43.0


From afa9c4ebc03d9ab43ccdf0b750e91df92acd867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 059/120] fix: round the time of AHAP control points as the
 time of events

---
 source/Encoder/src/AhapEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b4921d9..98d7594 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -207,8 +207,9 @@ namespace haptics::encoder {
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
-                               (double)timescale);
+    k.first = static_cast<int>(
+        std::round((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
+                   (double)timescale));
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
 
-- 
2.43.0


From 6e3091d6a1a58db365c72434897b1dfea521eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 060/120] fix: leave AHAP events alone that are before or after
 all control points of a curve

---
 source/Encoder/src/AhapEncoder.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 98d7594..035d892 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -371,6 +371,11 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
         return a.first >= continuous.getPosition();
       });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EVENT, NOTHING TO MODULATE
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
     continuous.getKeyframeAt(0).setAmplitudeModulation(
@@ -387,6 +392,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NOTHING TO MODULATE
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -421,6 +430,11 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
 
+  // IF ALL KEYFRAMES ARE BEFORE THE EVENT, NOTHING TO MODULATE
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
     double freq_d = first_kf_f->second + base_freq;
@@ -443,6 +457,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NOTHING TO MODULATE
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From 7d41c3be9a2a36ee4b794e77dbddd430cf55b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 061/120] fix: add the sharpness of an AHAP event only once at
 its end

---
 source/Encoder/src/AhapEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 035d892..c441ab7 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -464,7 +464,7 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-      freq = std::clamp(freq + base_freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
+      freq = std::clamp(freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       lastKeyframe.setFrequencyModulation(static_cast<int>(std::round(
           haptics::tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX,
                                                ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, freq))));
-- 
2.43.0


From 795acd5fac5ea33aca6401e1aa10c2d5b7fab8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 062/120] fix: keep the first and last control points of AHAP
 curves that begin or end inside an event

---
 source/Encoder/src/AhapEncoder.cpp | 43 +++++++++++++++++-------------
 source/Types/include/Effect.h      |  2 ++
 source/Types/src/Effect.cpp        | 12 ++++++++-
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index c441ab7..14ac454 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -404,15 +404,20 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
     // IF IN THE MIDDLE OF THE EFFECT, ADD KEYFRAME
     if (continuous.getPosition() < it->first &&
         it->first < (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      const int position = it->first - continuous.getPosition();
+      const float amp = static_cast<float>(it->second) * base_amp;
       // IF NO KEYFRAME BEFORE, BEGIN MODULATION
       if (it == amplitudes->begin()) {
-        continuous.addAmplitudeAt(base_amp, it->first - continuous.getPosition());
+        continuous.addAmplitudeAt(base_amp, position);
+        if (amp != base_amp && it != amplitudes->end() - 1) {
+          continuous.addAmplitudeAt(amp, position, false);
+        }
+        continue;
       }
-      continuous.addAmplitudeAt(static_cast<float>(it->second) * base_amp,
-                                it->first - continuous.getPosition());
+      continuous.addAmplitudeAt(amp, position);
       // IF NO KEYFRAME AFTER BUT STILL INSIDE, END MODULATION SWITCH BACK TO BASE AMPLITUDE
-      if (it == amplitudes->end() - 1) {
-        continuous.addAmplitudeAt(base_amp, it->first - continuous.getPosition());
+      if (amp != base_amp && it == amplitudes->end() - 1) {
+        continuous.addAmplitudeAt(base_amp, position, false);
       }
     }
   }
@@ -473,25 +478,27 @@ auto AhapEncoder::modulateContinuousOnFrequency(
     // IF IN THE MIDDLE OF THE EFFECT, ADD KEYFRAME
     if (continuous.getPosition() < it->first &&
         it->first < (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
-      // IF NO KEYFRAME BEFORE, BEGIN MODULATION
-      if (it == frequencies->begin()) {
-        int freq = static_cast<int>(std::round(haptics::tools::genericNormalization(
-            BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX,
-            base_freq)));
-        continuous.addFrequencyAt(freq, it->first - continuous.getPosition());
-      }
+      const int position = it->first - continuous.getPosition();
+      const int base = static_cast<int>(std::round(haptics::tools::genericNormalization(
+          BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX,
+          base_freq)));
       double freq_d = it->second + base_freq;
       freq_d = std::clamp(freq_d, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       int freq = static_cast<int>(std::round(haptics::tools::genericNormalization(
           BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX,
           freq_d)));
-      continuous.addFrequencyAt(freq, it->first - continuous.getPosition());
+      // IF NO KEYFRAME BEFORE, BEGIN MODULATION
+      if (it == frequencies->begin()) {
+        continuous.addFrequencyAt(base, position);
+        if (freq != base && it != frequencies->end() - 1) {
+          continuous.addFrequencyAt(freq, position, false);
+        }
+        continue;
+      }
+      continuous.addFrequencyAt(freq, position);
       // IF NO KEYFRAME AFTER BUT STILL INSIDE, END MODULATION SWITCH BACK TO BASE FREQUENCY
-      if (it == frequencies->end() - 1) {
-        int freq = static_cast<int>(std::round(haptics::tools::genericNormalization(
-            BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX,
-            base_freq)));
-        continuous.addFrequencyAt(freq, it->first - continuous.getPosition());
+      if (freq != base && it == frequencies->end() - 1) {
+        continuous.addFrequencyAt(base, position, false);
       }
     }
   }
diff --git a/source/Types/include/Effect.h b/source/Types/include/Effect.h
index 5f21565..14d9ad9 100644
--- a/source/Types/include/Effect.h
+++ b/source/Types/include/Effect.h
@@ -111,6 +111,8 @@ public:
   auto addAmplitudeAt(std::optional<float> amplitude, int position, bool overrideIfAlreadyExists)
       -> bool;
   auto addFrequencyAt(std::optional<int> frequency, int position) -> bool;
+  auto addFrequencyAt(std::optional<int> frequency, int position, bool overrideIfAlreadyExists)
+      -> bool;
   auto getEffectTimeLength(types::BandType bandType, double transientDuration) -> double;
 
   auto getTimelineSize() -> size_t;
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 1e8e15e..8260283 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -136,6 +136,11 @@ auto Effect::addAmplitudeAt(std::optional<float> amplitude, int position,
 }
 
 auto Effect::addFrequencyAt(std::optional<int> frequency, int position) -> bool {
+  return this->addFrequencyAt(frequency, position, true);
+}
+
+auto Effect::addFrequencyAt(std::optional<int> frequency, int position,
+                            bool overrideIfAlreadyExists) -> bool {
   auto kit =
       std::find_if(keyframes.begin(), keyframes.end(), [position](haptics::types::Keyframe k) {
         return k.getRelativePosition() >= position;
@@ -148,7 +153,12 @@ auto Effect::addFrequencyAt(std::optional<int> frequency, int position) -> bool
   }
 
   if (kit->getRelativePosition() == position) {
-    kit->setFrequencyModulation(frequency);
+    if (overrideIfAlreadyExists) {
+      kit->setFrequencyModulation(frequency);
+    } else {
+      Keyframe kf = Keyframe(position, std::nullopt, frequency);
+      keyframes.insert(kit + 1, kf);
+    }
   } else {
     Keyframe kf = Keyframe(position, std::nullopt, frequency);
     keyframes.insert(kit, kf);
-- 
2.43.0


From 9dba6f155d62826bd0ef98ffc47de1679e1eaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 063/120] fix: leave malformed elements and parameters of AHAP
 patterns out

---
 source/Encoder/src/AhapEncoder.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 14ac454..eb45b4f 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -63,6 +63,19 @@ const int ACTUAL_FREQUENCY_MAX = 300;
 
 namespace haptics::encoder {
 
+static auto hasMemberObject(const rapidjson::Value &value, const char *name) -> bool {
+  return value.IsObject() && value.HasMember(name) && value[name].IsObject();
+}
+
+static auto hasMemberString(const rapidjson::Value &value, const char *name) -> bool {
+  return value.IsObject() && value.HasMember(name) && value[name].IsString();
+}
+
+static auto isParameter(const rapidjson::Value &value) -> bool {
+  return hasMemberString(value, "ParameterID") && value.HasMember("ParameterValue") &&
+         value["ParameterValue"].IsNumber();
+}
+
 [[nodiscard]] auto AhapEncoder::encode(std::string &filename, haptics::types::Perception &out,
                                        const unsigned int timescale) -> int {
   if (out.getChannelsSize() > 1) {
@@ -96,7 +109,8 @@ namespace haptics::encoder {
 
   // FOR LOOP ON KEYFRAMES
   for (auto &e : pattern) {
-    if (e.HasMember("ParameterCurve")) {
+    if (hasMemberObject(e, "ParameterCurve") &&
+        hasMemberString(e["ParameterCurve"], "ParameterID")) {
       if (e["ParameterCurve"]["ParameterID"] == "HapticIntensityControl") {
         ret = extractKeyframes(e["ParameterCurve"].GetObject(), &amplitudes, timescale);
         if (ret != 0) {
@@ -123,7 +137,7 @@ namespace haptics::encoder {
 
   for (auto &e : pattern) {
 
-    if (e.HasMember("Event")) {
+    if (hasMemberObject(e, "Event") && hasMemberString(e["Event"], "EventType")) {
       if (e["Event"]["EventType"] == "HapticTransient") {
         ret = extractTransients(e["Event"].GetObject(), &transients, &amplitudes, &frequencies,
                                 timescale);
@@ -199,7 +213,7 @@ namespace haptics::encoder {
   }
 
   for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
-    if (!kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
+    if (!kahap.IsObject() || !kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
         !kahap.HasMember("ParameterValue") || !kahap["ParameterValue"].IsNumber()) {
       continue;
     }
@@ -241,6 +255,9 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!isParameter(param)) {
+      continue;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
@@ -327,6 +344,9 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!isParameter(param)) {
+      continue;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-- 
2.43.0


From dcadb4a8cb916b084fa8e6fb1fbc6732939032ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 064/120] fix: give the channels of the timelines of an IVS
 file different ids

---
 source/Encoder/src/IvsEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..36d900b 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -57,7 +57,8 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     haptics::types::Channel myChannel;
     if (out.getChannelsSize() <= static_cast<size_t>(channelId)) {
       std::string timelineName = IvsEncoder::getName(&timeline);
-      myChannel = haptics::types::Channel(0, timelineName.append(" - ").append(date), 1, 1, 0);
+      myChannel = haptics::types::Channel(channelId, timelineName.append(" - ").append(date),
+                                          1, 1, 0);
       out.addChannel(myChannel);
     };
     myChannel = out.getChannelAt(channelId);
-- 
2.43.0


From 04e5b33c90cccbef005ff8899899153120d87662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 065/120] fix: keep the outer repeats of an IVS timeline when
 others are nested in them

---
 source/Encoder/src/IvsEncoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 36d900b..befcaf6 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -80,20 +80,20 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
+      RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
       do {
-        if (researchNode.children.empty()) {
+        if (researchNode->children.empty()) {
           break;
         }
 
-        auto lastChild = researchNode.children.back();
+        RepeatNode &lastChild = researchNode->children.back();
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
-          researchNode = lastChild;
+          researchNode = &lastChild;
         }
       } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      researchNode->children.push_back(currentNode);
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From 928090ec9a1d470471585997a05ee49c77a80014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 066/120] fix: order the effects launched by an IVS timeline by
 time

---
 source/Encoder/include/IvsEncoder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..287da39 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -118,11 +118,11 @@ private:
         }
       }
 
-      auto it = myEffects.end();
+      auto it = myEffects.begin();
       auto it_effects = myEffects.begin();
       int effectPosition = myEffect.getPosition();
       for (; it_effects < myEffects.end(); it_effects++) {
-        if (it_effects->getPosition() < effectPosition) {
+        if (it_effects->getPosition() <= effectPosition) {
           it = it_effects + 1;
         }
       }
-- 
2.43.0


From d28eaedc6b96bde2b827a3326f55a9a7c76b5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 067/120] fix: let an IVS effect without fade time keep its
 magnitude to its end

---
 source/Encoder/src/IvsEncoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index befcaf6..26080e5 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -202,6 +202,9 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   int fadeDuration = IvsEncoder::getFadeTime(basisEffect);
   if (fadeDuration != -1) {
     fadeDuration = IvsEncoder::millisecondsToTimeScale(fadeDuration, timescale);
+    if (fadeDuration == 0) {
+      return true;
+    }
     int fadeTime = duration - fadeDuration;
 
     int fadeLevel = IvsEncoder::getFadeLevel(basisEffect);
-- 
2.43.0


From f7454df79f7725ea6290a8eca4119099318065f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 068/120] fix: count the time of repeats nested at any depth in
 the time of an IVS repeat

---
 source/Encoder/include/IvsEncoder.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 287da39..aea09d2 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -152,9 +152,10 @@ private:
           linearized_effects.push_back(e);
           myEffects_it++;
         } else {
-          delay_tmp = children_it->linearize(linearized_effects, delay);
-          duration += delay_tmp;
-          delay += delay_tmp;
+          delay_tmp = delay;
+          const int repeated = children_it->linearize(linearized_effects, delay);
+          delay += repeated;
+          duration += delay - delay_tmp;
           children_it++;
         }
       }
@@ -165,9 +166,10 @@ private:
         linearized_effects.push_back(e);
       }
       for (; children_it < children.end(); children_it++) {
-        delay_tmp = children_it->linearize(linearized_effects, delay);
-        duration += delay_tmp;
-        delay += delay_tmp;
+        delay_tmp = delay;
+        const int repeated = children_it->linearize(linearized_effects, delay);
+        delay += repeated;
+        duration += delay - delay_tmp;
       }
 
       for (int i = 0; i <= count; i++) {
-- 
2.43.0


From 970c92d12dc1e18ec6c2669c8526692ab26c598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 069/120] fix: round the milliseconds of IVS files to the
 nearest tick

---
 source/Encoder/src/IvsEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 26080e5..19d38c4 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/IvsEncoder.h>
 #include <Tools/include/Tools.h>
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <limits>
 
@@ -419,7 +420,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
 }
 
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
-  return static_cast<int>(static_cast<double>(milliseconds) * MS_2_S *
-                          static_cast<double>(timescale));
+  return static_cast<int>(std::round(static_cast<double>(milliseconds) * MS_2_S *
+                                     static_cast<double>(timescale)));
 }
 } // namespace haptics::encoder
-- 
2.43.0


From a2c7de5c95adbcb383b19367c8717a5a8b106d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 070/120] fix: OHMData::loadFile keeps the elements of an
 earlier file

Loading into an object that has elements appended those of the file to
them, while every other field was replaced.
---
 source/Tools/src/OHMData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..60e3593 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -43,6 +43,7 @@ OHMData::OHMData(const std::string &filePath) { loadFile(filePath); }
 
 auto OHMData::loadFile(const std::string &filePath) -> bool {
   version = 1;
+  elementsMetadata.clear();
   std::ifstream file(filePath, std::ios::binary | std::ifstream::in);
   if (!file) {
     std::cerr << filePath << ": Cannot open file!" << std::endl;
-- 
2.43.0


From f7748a4aa1a5c177c740e3c756b114f56aaaa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 071/120] fix: OHMData::loadFile corrupts body part masks with
 a high byte

The bytes were combined as signed chars, so that one of 0x80 or more set
all the bits above it.
---
 source/Tools/src/OHMData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 60e3593..5fc235d 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -122,8 +122,13 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
       channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+          (static_cast<unsigned int>(static_cast<unsigned char>(bodyPartMaskBytes[0]))
+           << threeBytesShift) |
+          (static_cast<unsigned int>(static_cast<unsigned char>(bodyPartMaskBytes[1]))
+           << twoBytesShift) |
+          (static_cast<unsigned int>(static_cast<unsigned char>(bodyPartMaskBytes[2]))
+           << oneByteShift) |
+          static_cast<unsigned int>(static_cast<unsigned char>(bodyPartMaskBytes[3])));
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From f88a7f61a00923d96c9b88d3123c4a29d402c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 072/120] fix: OHMData::loadFile accepts truncated files

The state of the stream was not looked at after the reads: a file cut
short gave elements and channels of zeros, and success.
---
 source/Tools/src/OHMData.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 5fc235d..06906ca 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -89,6 +89,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   file.read(descriptionBytes.data(), descriptionByteSize);
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
+  if (!file) {
+    std::cerr << filePath << ": File is truncated!" << std::endl;
+    return false;
+  }
 
   for (int i = 0; i < numElements; i++) {
     HapticElementMetadata element;
@@ -106,6 +110,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
     file.read(numHapticChannelsBytes.data(), 2);
     std::reverse(numHapticChannelsBytes.begin(), numHapticChannelsBytes.end());
     memcpy(&element.numHapticChannels, &numHapticChannelsBytes, sizeof(element.numHapticChannels));
+    if (!file) {
+      std::cerr << filePath << ": File is truncated!" << std::endl;
+      return false;
+    }
 
     for (int j = 0; j < element.numHapticChannels; j++) {
       HapticChannelMetadata channel;
@@ -130,6 +138,11 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
            << oneByteShift) |
           static_cast<unsigned int>(static_cast<unsigned char>(bodyPartMaskBytes[3])));
 
+      if (!file) {
+        std::cerr << filePath << ": File is truncated!" << std::endl;
+        return false;
+      }
+
       element.channelsMetadata.push_back(channel);
     }
     elementsMetadata.push_back(element);
-- 
2.43.0


From 12391f6170e826395594c3ece15645681403cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 073/120] fix: round coded reals to the nearest code instead of
 down

Cutting off the fraction lost up to a whole step, and, as decoding is not
exact, loading and writing a file again moved amplitudes and phases down by
one code each time.
---
 source/IOHaptics/include/IOBinaryPrimitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..822d2f0 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -114,7 +114,7 @@ public:
     auto normalizedValue = (value - minValue) / (maxValue - minValue);
     normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(std::round((double)(normalizedValue)*maxIntValue));
     writeNBits<T, bitCount>(intValue, output);
   }
 
-- 
2.43.0


From 34aed2b39d31c093d64dd5dcb7ea5f9daedb8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 074/120] fix: IOBinary loads truncated files and files with an
 invalid body

The result of reading the body and the state of the stream were not looked
at: a file cut short anywhere was loaded as if zeros followed.
---
 source/IOHaptics/src/IOBinary.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index f54181d..77f9c3a 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -46,9 +46,9 @@ auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::vector<bool> unusedBits;
   bool res = readFileHeader(out, istr, unusedBits);
   if (res) {
-    readFileBody(out, istr, unusedBits);
+    res = readFileBody(out, istr, unusedBits);
   }
-  return res;
+  return res && !istr.fail();
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -70,8 +70,9 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
   std::vector<bool> unusedBits;
   bool res = IOBinary::readFileHeader(out, file, unusedBits);
   if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
+    res = IOBinary::readFileBody(out, file, unusedBits);
   }
+  res = res && !file.fail();
 
   file.close();
   return res;
-- 
2.43.0


From 9ee21e50be6e9499fb11ed2ffeae949428c39201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 075/120] fix: IOBinary divides by zero on wavelet bands
 without upper frequency

and block lengths that do not fit an int overflowed. Such files are refused.
---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 77f9c3a..6265425 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -773,7 +773,7 @@ auto IOBinary::readFileBody(types::Haptics &haptic, std::istream &file,
         myBand = myChannel.getBandAt(bandIndex);
         if (!IOBinaryBands::readBandHeader(myBand, file, unusedBits,
                                            haptic.getTimescaleOrDefault())) {
-          continue;
+          return false;
         }
 
         if (!IOBinaryBands::readBandBody(myBand, file, unusedBits,
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index e7d0309..81f0f2e 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -45,14 +45,14 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
   band.setBandType(static_cast<types::BandType>(bandType));
-  int blockLength_samp = 0;
+  double blockLength_samp = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
     band.setCurveType(static_cast<types::CurveType>(curveType));
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
-    blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
+    blockLength_samp = pow(2, blockLength_code + 4);
   }
 
   auto lowerFrequencyLimit =
@@ -64,8 +64,14 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
-    auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
-    band.setBlockLength(blockLength_ticks);
+    if (upperFrequencyLimit == 0) {
+      return false;
+    }
+    auto blockLength_ticks = blockLength_samp * timescale / upperFrequencyLimit;
+    if (blockLength_ticks > static_cast<double>(std::numeric_limits<int>::max())) {
+      return false;
+    }
+    band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
   for (unsigned int i = 0; i < effectCount; i++) {
-- 
2.43.0


From f987c34a53d02a82858b50eeae1dfa87a5259bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 076/120] fix: IOBinary loads codes that are reserved

Avatar types, modalities, actuator types, body parts, band, curve and effect
types and base signals that do not exist were taken over, and writing the
experience as .hjif ended with an exception. Such files are refused.
---
 source/IOHaptics/src/IOBinary.cpp      | 18 +++++++++++++++++
 source/IOHaptics/src/IOBinaryBands.cpp | 27 +++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 6265425..5df0674 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -152,6 +152,9 @@ auto IOBinary::readAvatars(types::Haptics &haptic, std::istream &file,
 
     std::string avatarURI;
     myAvatar = types::Avatar(avatarId, avatarLod, static_cast<types::AvatarType>(avatarType));
+    if (types::avatarTypeToString.count(myAvatar.getType()) == 0) {
+      return false;
+    }
     if (myAvatar.getType() == types::AvatarType::Custom) {
       avatarURI = IOBinaryPrimitives::readString(file, unusedBits);
       myAvatar.setMesh(avatarURI);
@@ -204,6 +207,9 @@ auto IOBinary::readPerceptionsHeader(types::Haptics &haptic, std::istream &file,
 
     myPerception = types::Perception(perceptionId, avatarId, perceptionDescription,
                                      static_cast<types::PerceptionModality>(perceptionModality));
+    if (types::perceptionModalityToString.count(myPerception.getPerceptionModality()) == 0) {
+      return false;
+    }
     myPerception.setUnitExponent(unitExponent);
     myPerception.setPerceptionUnitExponent(perceptionUnitExponent);
     if (!IOBinary::readLibrary(myPerception, file, unusedBits)) {
@@ -268,10 +274,16 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   auto position = IOBinaryPrimitives::readNBits<int, EFFECT_POSITION>(file, unusedBits);
 
   auto effectType = IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits);
+  if (types::effectTypeToString.count(static_cast<types::EffectType>(effectType)) == 0) {
+    file.setstate(std::ios::failbit);
+  }
   if (effectType == 0) {
     auto phase =
         IOBinaryPrimitives::readFloatNBits<uint16_t, EFFECT_PHASE>(file, 0, MAX_PHASE, unusedBits);
     auto baseSignal = IOBinaryPrimitives::readNBits<uint8_t, EFFECT_BASE_SIGNAL>(file, unusedBits);
+    if (types::baseSignalToString.count(static_cast<types::BaseSignal>(baseSignal)) == 0) {
+      file.setstate(std::ios::failbit);
+    }
 
     effect =
         types::Effect(static_cast<int>(position), phase, static_cast<types::BaseSignal>(baseSignal),
@@ -483,6 +495,9 @@ auto IOBinary::readReferenceDevices(types::Perception &perception, std::istream
 
     if ((deviceInformationMask & (uint16_t)DeviceInformationMask::TYPE) != 0) {
       auto type = IOBinaryPrimitives::readNBits<uint8_t, REFDEV_TYPE>(file, unusedBits);
+      if (types::actuatorTypeToString.count(static_cast<types::ActuatorType>(type)) == 0) {
+        return false;
+      }
       myReferenceDevice.setType(static_cast<types::ActuatorType>(type));
     }
 
@@ -619,6 +634,9 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
       for (auto &target : bodyPartTarget) {
         target = static_cast<types::BodyPartTarget>(
             IOBinaryPrimitives::readNBits<uint8_t, MDCHANNEL_BODY_PART_TARGET>(file, unusedBits));
+        if (types::bodyPartTargetToString.count(target) == 0) {
+          return false;
+        }
       }
       t.setBodyPartTarget(bodyPartTarget);
 
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 81f0f2e..9e7fcd6 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -45,10 +45,16 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
   band.setBandType(static_cast<types::BandType>(bandType));
+  if (types::bandTypeToString.count(band.getBandType()) == 0) {
+    return false;
+  }
   double blockLength_samp = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
     band.setCurveType(static_cast<types::CurveType>(curveType));
+    if (types::curveTypeToString.count(band.getCurveTypeOrDefault()) == 0) {
+      return false;
+    }
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
@@ -122,6 +128,9 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     auto myEffect = band.getEffectAt(effectIndex);
     auto effectType = static_cast<types::EffectType>(
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
+    if (types::effectTypeToString.count(effectType) == 0) {
+      return false;
+    }
     myEffect.setEffectType(effectType);
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
@@ -135,7 +144,9 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
@@ -305,6 +316,9 @@ auto IOBinaryBands::readVectorialEffect(types::Effect &effect, std::istream &fil
   effect.setPhase(phase);
   auto baseSignal = IOBinaryPrimitives::readNBits<uint8_t, EFFECT_BASE_SIGNAL>(file, unusedBits);
   effect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+  if (types::baseSignalToString.count(static_cast<types::BaseSignal>(baseSignal)) == 0) {
+    return false;
+  }
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
   for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount; keyframeIndex++) {
@@ -428,6 +442,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
     types::Effect myEffect;
     auto effectType = static_cast<types::EffectType>(
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
+    if (types::effectTypeToString.count(effectType) == 0) {
+      return false;
+    }
     myEffect.setEffectType(effectType);
     auto position = static_cast<int>(
         IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
@@ -435,7 +452,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
@@ -445,7 +464,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
         IOBinaryBands::readCurveEffect(myEffect, file, unusedBits);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::readVectorialEffect(myEffect, file, unusedBits);
+        if (!IOBinaryBands::readVectorialEffect(myEffect, file, unusedBits)) {
+          return false;
+        }
         break;
       case types::BandType::WaveletWave:
         IOBinaryBands::readWaveletEffect(myEffect, file, unusedBits);
-- 
2.43.0


From 7e812febdc112c44aa2c233a8cb3721e812bba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 077/120] fix: IOBinary takes seconds for each band of a
 truncated file

The effects a header announces were inserted one by one in quadratic time,
and their bodies read, as zeros, when the file had ended already.
---
 source/IOHaptics/src/IOBinary.cpp      | 10 +++++-----
 source/IOHaptics/src/IOBinaryBands.cpp | 17 ++++++++++-------
 source/Types/include/Band.h            |  1 +
 source/Types/src/Band.cpp              |  2 ++
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 5df0674..78d2aec 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -296,7 +296,7 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint32_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
   effect.setId(id);
-  for (unsigned int i = 0; i < keyframeCount; i++) {
+  for (unsigned int i = 0; i < keyframeCount && !file.fail(); i++) {
     auto mask = IOBinaryPrimitives::readNBits<uint8_t, KEYFRAME_MASK>(file, unusedBits);
     std::optional<int> position = std::nullopt;
     std::optional<float> amplitude = std::nullopt;
@@ -318,7 +318,7 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   }
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<unsigned short, EFFECT_TIMELINE_COUNT>(file, unusedBits);
-  for (unsigned short i = 0; i < timelineEffectCount; i++) {
+  for (unsigned short i = 0; i < timelineEffectCount && !file.fail(); i++) {
     auto timelineEffect = readLibraryEffect(file, unusedBits);
     effect.addTimelineEffect(timelineEffect);
   }
@@ -389,7 +389,7 @@ auto IOBinary::readLibrary(types::Perception &perception, std::istream &file,
       IOBinaryPrimitives::readNBits<unsigned short, MDPERCE_LIBRARY_COUNT>(file, unusedBits);
   bool success = true;
 
-  for (unsigned short i = 0; i < effectCount; i++) {
+  for (unsigned short i = 0; i < effectCount && !file.fail(); i++) {
     auto effect = readLibraryEffect(file, unusedBits);
     perception.addBasisEffect(effect);
   }
@@ -607,7 +607,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
   auto channelCount =
       IOBinaryPrimitives::readNBits<unsigned short, MDPERCE_CHANNEL_COUNT>(file, unusedBits);
   // for each channel
-  for (unsigned short i = 0; i < channelCount; i++) {
+  for (unsigned short i = 0; i < channelCount && !file.fail(); i++) {
     types::Channel t;
     t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
@@ -661,7 +661,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     }
     auto verticesCount = IOBinaryPrimitives::readNBits<int, MDCHANNEL_VERT_COUNT>(file, unusedBits);
     int vertex = 0;
-    for (int j = 0; j < verticesCount; j++) {
+    for (int j = 0; j < verticesCount && !file.fail(); j++) {
       vertex = IOBinaryPrimitives::readNBits<int, MDCHANNEL_VERT>(file, unusedBits);
       t.addVertex(vertex);
     }
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 9e7fcd6..2c918b2 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -80,10 +80,7 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
-  for (unsigned int i = 0; i < effectCount; i++) {
-    types::Effect e;
-    band.addEffect(e);
-  }
+  band.appendEffects(effectCount);
 
   return true;
 }
@@ -125,6 +122,9 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
                                  std::vector<bool> &unusedBits, const unsigned int /*timescale*/)
     -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
+    if (file.fail()) {
+      return false;
+    }
     auto myEffect = band.getEffectAt(effectIndex);
     auto effectType = static_cast<types::EffectType>(
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
@@ -228,7 +228,7 @@ auto IOBinaryBands::readTransientEffect(types::Effect &effect, std::istream &fil
 
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
-  for (unsigned short kfIndex = 0; kfIndex < keyframeCount; kfIndex++) {
+  for (unsigned short kfIndex = 0; kfIndex < keyframeCount && !file.fail(); kfIndex++) {
     float amplitude = IOBinaryPrimitives::readFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
         file, -MAX_AMPLITUDE, MAX_AMPLITUDE, unusedBits);
     auto position = IOBinaryPrimitives::readNBits<uint16_t, KEYFRAME_POSITION>(file, unusedBits);
@@ -275,7 +275,7 @@ auto IOBinaryBands::readCurveEffect(types::Effect &effect, std::istream &file,
                                     std::vector<bool> &unusedBits) -> bool {
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
-  for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount; keyframeIndex++) {
+  for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount && !file.fail(); keyframeIndex++) {
     float amplitude = IOBinaryPrimitives::readFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
         file, -MAX_AMPLITUDE, MAX_AMPLITUDE, unusedBits);
     auto position = IOBinaryPrimitives::readNBits<uint16_t, KEYFRAME_POSITION>(file, unusedBits);
@@ -321,7 +321,7 @@ auto IOBinaryBands::readVectorialEffect(types::Effect &effect, std::istream &fil
   }
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
-  for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount; keyframeIndex++) {
+  for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount && !file.fail(); keyframeIndex++) {
     auto amplitudeFrequencyMask =
         IOBinaryPrimitives::readNBits<uint8_t, KEYFRAME_MASK>(file, unusedBits);
     auto myKeyframe = types::Keyframe(std::nullopt, std::nullopt, std::nullopt);
@@ -439,6 +439,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_TIMELINE_COUNT>(file, unusedBits);
 
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
+    if (file.fail()) {
+      return false;
+    }
     types::Effect myEffect;
     auto effectType = static_cast<types::EffectType>(
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index 5928047..f2a9b60 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -86,6 +86,7 @@ public:
   auto getEffectsSize() -> size_t;
   auto getEffectAt(int index) -> haptics::types::Effect &;
   auto addEffect(haptics::types::Effect &newEffect) -> void;
+  auto appendEffects(size_t count) -> void;
   auto replaceEffectAt(int index, haptics::types::Effect &newEffect) -> bool;
   auto removeEffectAt(int index) -> bool;
   [[nodiscard]] auto isOverlapping(haptics::types::Effect &effect, int start, int stop) -> bool;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 6d5e443..a31114e 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -94,6 +94,8 @@ auto Band::addEffect(Effect &newEffect) -> void {
   effects.insert(it, newEffect);
 }
 
+auto Band::appendEffects(size_t count) -> void { effects.resize(effects.size() + count); }
+
 auto Band::replaceEffectAt(int index, haptics::types::Effect &newEffect) -> bool {
   if (index < 0 || index >= (int)this->getEffectsSize()) {
     return false;
-- 
2.43.0


From da7725ef1e24c2f59c9d20eaca5462c790980a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 078/120] fix: IOBinary misreads files loaded into an
 experience with content

The perceptions of the file were added to those that were there, and the
bands of the file read into the first of them.
---
 source/IOHaptics/src/IOBinary.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 78d2aec..55c24a9 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -42,6 +42,7 @@ namespace haptics::io {
 
 auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::istream istr(&in);
+  out = types::Haptics();
 
   std::vector<bool> unusedBits;
   bool res = readFileHeader(out, istr, unusedBits);
@@ -67,6 +68,7 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
     file.close();
     return false;
   }
+  out = types::Haptics();
   std::vector<bool> unusedBits;
   bool res = IOBinary::readFileHeader(out, file, unusedBits);
   if (res) {
-- 
2.43.0


From 44847c7a383b9a0cde84c33b45878aa43cd16f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 079/120] fix: IOJson mixes loaded files with what the
 experience held before

Avatars, perceptions and syncs of the file were added to those that were
there, unlike when a stream is read.
---
 source/IOHaptics/src/IOJson.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 592fb99..902f167 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -664,6 +664,7 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   auto level = static_cast<uint8_t>(jsonTree["level"].GetUint());
   auto date = std::string(jsonTree["date"].GetString());
   auto description = std::string(jsonTree["description"].GetString());
+  haptic = types::Haptics();
   haptic.setVersion(version);
   haptic.setProfile(profile);
   haptic.setLevel(level);
-- 
2.43.0


From 99d64948f1d8ad68e18778b6427885d5079f6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 080/120] fix: IOStream reads past the end of incomplete units
 and packets

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 13 +++----
 source/IOHaptics/include/IOStream.h           |  2 ++
 source/IOHaptics/src/IOStream.cpp             | 36 ++++++++++++++++---
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 822d2f0..467de87 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -143,7 +143,7 @@ public:
                              float maxValue) -> float {
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
-      if (bitstream[i]) {
+      if (bitstream.at(i)) {
         str += "1";
       } else {
         str += "0";
@@ -167,7 +167,7 @@ public:
   static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
-      if ((bitstream[i])) {
+      if (bitstream.at(i)) {
         tsBits += "1";
       } else {
         tsBits += "0";
@@ -180,10 +180,7 @@ public:
 
   static auto readInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
 
-    if (bitstream.empty()) {
-      return EXIT_FAILURE;
-    }
-    if (bitstream[startIdx]) {
+    if (bitstream.at(startIdx)) {
       bitstream.flip();
       return -(readUInt(bitstream, startIdx, length) + 1);
     }
@@ -194,8 +191,8 @@ public:
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
-      for (auto b : std::vector<bool>(bitstream.begin() + i, bitstream.begin() + i + BYTE_SIZE)) {
-        if (b) {
+      for (int j = i; j < i + BYTE_SIZE; j++) {
+        if (bitstream.at(j)) {
           bitsStr += "1";
         } else {
           bitsStr += "0";
diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 1ed8701..7a88ddd 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -226,6 +226,8 @@ private:
   static auto readPacketTS(std::vector<bool> bitstream) -> int;
   static auto readPacketLength(std::vector<bool> &bitstream) -> int;
 
+  static auto readMIHSPacketPayload(MIHSPacketType mihsPacketType, std::vector<bool> &payload,
+                                    StreamReader &sreader, CRC &crc) -> bool;
   static auto readMIHSPacketType(std::vector<bool> &packet) -> MIHSPacketType;
   static auto readMIHSPacketHeader(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool;
   static auto readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7aa2c10..1eda1da 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -38,6 +38,7 @@
 #include <algorithm>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 
 namespace haptics::io {
 
@@ -240,6 +241,11 @@ auto IOStream::silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) ->
 }
 
 auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader, CRC &crc) -> bool {
+  const size_t headerLength =
+      UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
+  if (mihsunit.size() < headerLength) {
+    return false; // incomplete unit
+  }
   int index = 0;
   IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_TYPE);
   // MIHSUnitType unitType = static_cast<MIHSUnitType>(unitTypeInt);
@@ -251,7 +257,11 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   sreader.layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
 
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
-  int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
+  const auto bytes = static_cast<uint32_t>(IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH));
+  if (bytes > (mihsunit.size() - headerLength) / BYTE_SIZE) {
+    return false; // incomplete unit
+  }
+  int unitLength = static_cast<int>(bytes) * BYTE_SIZE;
   index += UNIT_RESERVED;
 
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -676,11 +686,27 @@ auto IOStream::writeMIHSPacketHeader(MIHSPacketType mihsPacketType, int payloadS
   return true;
 }
 auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, CRC &crc) -> bool {
+  if (packet.size() < H_NBITS) {
+    return false; // incomplete packet
+  }
   MIHSPacketType mihsPacketType = readMIHSPacketType(packet);
   int index = H_MIHS_PACKET_TYPE;
   sreader.packetLength = IOBinaryPrimitives::readUInt(packet, index, H_PAYLOAD_LENGTH) * BYTE_SIZE;
   index += H_RESERVED;
-  std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
+  if (packet.size() - index < sreader.packetLength) {
+    return false; // incomplete packet
+  }
+  std::vector<bool> payload =
+      std::vector<bool>(packet.begin() + index, packet.begin() + index + sreader.packetLength);
+  try {
+    return readMIHSPacketPayload(mihsPacketType, payload, sreader, crc);
+  } catch (const std::out_of_range &) {
+    return false; // the payload is shorter than its fields, or holds unknown codes
+  }
+}
+
+auto IOStream::readMIHSPacketPayload(MIHSPacketType mihsPacketType, std::vector<bool> &payload,
+                                     StreamReader &sreader, CRC &crc) -> bool {
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
     readTiming(sreader, payload);
@@ -1427,8 +1453,10 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
-  std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
-  idx += REFDEV_OPT_FIELDS;
+  std::vector<bool> mask;
+  for (int i = 0; i < REFDEV_OPT_FIELDS; i++) {
+    mask.push_back(bitstream.at(idx++));
+  }
   int maskIdx = 0;
   float value = 0;
   if (mask[maskIdx++]) {
-- 
2.43.0


From 145c3fd1a18485f07229a74594e54a5a08b98abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 081/120] fix: IOStream accepts files that end inside a unit

---
 source/IOHaptics/src/IOStream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1eda1da..6d219af 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -113,15 +113,23 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
-    IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
-    byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
+    const unsigned int headerBytes = unitNBits / BYTE_SIZE;
+    if (length - byteCount < headerBytes) {
+      return false; // the file ends inside a unit
+    }
+    IOBinaryPrimitives::readNBytes(file, static_cast<int>(headerBytes), bufPacket);
+    byteCount += headerBytes;
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
-    int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
+    auto bytesToRead =
+        static_cast<unsigned int>(IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH));
+    if (length - byteCount < bytesToRead) {
+      return false; // the file ends inside a unit
+    }
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
-    IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
+    IOBinaryPrimitives::readNBytes(file, static_cast<int>(bytesToRead), bufPacket);
     byteCount += bytesToRead;
     bitset.push_back(bufPacket);
   }
-- 
2.43.0


From 98991c6264129515b194a5d3078ee11875a4f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 082/120] fix: IOStream takes reserved codes for values

---
 source/IOHaptics/src/IOStream.cpp | 39 +++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6d219af..392301d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -984,6 +984,9 @@ auto IOStream::readAvatar(std::vector<bool> &bitstream, types::Avatar &avatar, i
   avatar.setId(id);
   avatar.setLod(lod);
   avatar.setType(static_cast<types::AvatarType>(type));
+  if (types::avatarTypeToString.count(avatar.getType()) == 0) {
+    return false;
+  }
   if (type == 0) {
     int meshCount = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_MESH_COUNT);
     std::string mesh = IOBinaryPrimitives::readString(bitstream, idx, meshCount);
@@ -1073,6 +1076,9 @@ auto IOStream::readMetadataPerception(StreamReader &sreader, std::vector<bool> &
 
   int modal = IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_MODALITY);
   sreader.perception.setPerceptionModality(static_cast<types::PerceptionModality>(modal));
+  if (types::perceptionModalityToString.count(sreader.perception.getPerceptionModality()) == 0) {
+    return false;
+  }
 
   int avatarId = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_ID);
   sreader.perception.setAvatarId(avatarId);
@@ -1151,6 +1157,9 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
 
   int effectType = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE);
   libraryEffect.setEffectType(static_cast<types::EffectType>(effectType));
+  if (types::effectTypeToString.count(libraryEffect.getEffectType()) == 0) {
+    return false;
+  }
 
   int hasSemantic = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_FLAG_SEMANTIC);
   if (hasSemantic == 1) {
@@ -1169,6 +1178,9 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
 
     int baseSignal = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_BASE_SIGNAL);
     libraryEffect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+    if (types::baseSignalToString.count(static_cast<types::BaseSignal>(baseSignal)) == 0) {
+      return false;
+    }
   }
 
   int kfCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_KEYFRAME_COUNT);
@@ -1515,6 +1527,9 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   if (mask[maskIdx++]) {
     int type = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_TYPE);
     refDevice.setType(static_cast<types::ActuatorType>(type));
+    if (types::actuatorTypeToString.count(refDevice.getType().value()) == 0) {
+      return false;
+    }
   }
   length += idx;
   return true;
@@ -1683,6 +1698,9 @@ auto IOStream::readMetadataChannel(StreamReader &sreader, std::vector<bool> &bit
     for (auto &target : bodyPartTarget) {
       target = static_cast<types::BodyPartTarget>(
           IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_BODY_PART_TARGET));
+      if (types::bodyPartTargetToString.count(target) == 0) {
+        return false;
+      }
     }
     sreader.channel.setBodyPartTarget(bodyPartTarget);
 
@@ -1800,9 +1818,15 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   int blockLengthCode = 0;
   int bandType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BAND_TYPE);
   sreader.bandStream.band.setBandType(static_cast<types::BandType>(bandType));
+  if (types::bandTypeToString.count(sreader.bandStream.band.getBandType()) == 0) {
+    return false;
+  }
   if (sreader.bandStream.band.getBandType() == types::BandType::Curve) {
     int curveType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_CURVE_TYPE);
     sreader.bandStream.band.setCurveType(static_cast<types::CurveType>(curveType));
+    if (types::curveTypeToString.count(sreader.bandStream.band.getCurveTypeOrDefault()) == 0) {
+      return false;
+    }
   } else if (sreader.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     blockLengthCode = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BLK_LEN);
   }
@@ -2205,8 +2229,10 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  static_cast<int>(sreader.time));
+      if (!readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
+                             static_cast<int>(sreader.time))) {
+        return false;
+      }
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2359,6 +2385,9 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
   types::EffectType effectType =
       static_cast<types::EffectType>(IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
   effect.setEffectType(effectType);
+  if (types::effectTypeToString.count(effectType) == 0) {
+    return false;
+  }
 
   int hasSemantic = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_FLAG_SEMANTIC);
   if (hasSemantic == 1) {
@@ -2393,6 +2422,9 @@ auto IOStream::readEffect(std::vector<bool> &bitstream, types::Effect &effect, t
   types::EffectType effectType =
       static_cast<types::EffectType>(IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
   effect.setEffectType(effectType);
+  if (types::effectTypeToString.count(effectType) == 0) {
+    return false;
+  }
 
   int effectPos = IOBinaryPrimitives::readInt(bitstream, idx, EFFECT_POSITION);
   effect.setPosition(effectPos);
@@ -2449,6 +2481,9 @@ auto IOStream::readEffectBasis(std::vector<bool> &bitstream, types::Effect &effe
     effect.setPhase(phase);
     int baseSignal = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_BASE_SIGNAL);
     effect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+    if (types::baseSignalToString.count(static_cast<types::BaseSignal>(baseSignal)) == 0) {
+      return false;
+    }
   }
   std::vector<types::Keyframe> keyframes = std::vector<types::Keyframe>();
   std::vector<bool> kfBitsList(bitstream.begin() + idx, bitstream.end());
-- 
2.43.0


From 050fa3f935d03a01364542b4f605533f01aceed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 083/120] fix: IOStream reads data for bands of other channels
 past the end

---
 source/IOHaptics/src/IOStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 392301d..387a30e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2213,8 +2213,9 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.bandStream.id = -1;
   sreader.bandStream.id = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_ID);
   sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream.id);
-  if (sreader.bandStream.index == -1) {
-    return false;
+  if (sreader.bandStream.index == -1 ||
+      sreader.bandStream.index >= static_cast<int>(sreader.channel.getBandsSize())) {
+    return false; // unknown, or a band of another channel
   }
   sreader.bandStream.band = sreader.channel.getBandAt(sreader.bandStream.index);
 
-- 
2.43.0


From b0dec1448aa3caf5951619c0f049e027010b83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 084/120] fix: wavelet block lengths outside the range of their
 code become garbage

---
 source/IOHaptics/src/IOBinaryBands.cpp | 10 +++++++---
 source/IOHaptics/src/IOStream.cpp      | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 2c918b2..7394945 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -95,13 +95,17 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
     auto curveType = static_cast<uint8_t>(band.getCurveTypeOrDefault());
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_CURVE_TYPE>(curveType, output);
   } else if (band.getBandType() == types::BandType::WaveletWave) {
-    auto bl_ticks = band.getBlockLength().value();
+    auto bl_ticks = band.getBlockLengthOrDefault();
     auto blockLength_samples =
         (double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit();
     // the length in ticks may be rounded
-    auto blockLength_code = (int)std::lround(log2(blockLength_samples)) - 4;
-    if (blockLength_code < 0) {
+    int blockLength_code = 0;
+    if (blockLength_samples >= 1) {
+      blockLength_code = (int)std::lround(log2(blockLength_samples)) - 4;
+    }
+    if (blockLength_code < 0 || blockLength_samples < 1) {
       std::cerr << "wavelet blocklength too small" << std::endl;
+      blockLength_code = 0;
     }
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_BLK_LEN>(blockLength_code, output);
   }
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 387a30e..96b196a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1774,7 +1774,12 @@ auto IOStream::writeMetadataBand(StreamWriter &swriter, std::vector<bool> &bitst
         static_cast<double>(swriter.bandStream.band.getBlockLengthOrDefault()) /
         static_cast<double>(swriter.timescale) *
         static_cast<double>(swriter.bandStream.band.getUpperFrequencyLimit());
-    std::bitset<MDBAND_BLK_LEN> winLengthBits(std::lround(std::log2(blockLengthSamples)) - 4);
+    int blockLengthCode = 0;
+    if (blockLengthSamples >= 1) {
+      blockLengthCode =
+          std::max(0, static_cast<int>(std::lround(std::log2(blockLengthSamples))) - 4);
+    }
+    std::bitset<MDBAND_BLK_LEN> winLengthBits(blockLengthCode);
     std::string winLengthStr = winLengthBits.to_string();
     IOBinaryPrimitives::writeStrBits(winLengthStr, bitstream);
   }
@@ -1838,9 +1843,12 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
     if (upFreq == 0) {
       return false;
     }
-    const unsigned int blockLengthSamples = 1U << static_cast<unsigned int>(blockLengthCode + 4);
-    sreader.bandStream.band.setBlockLength(static_cast<int>(
-        blockLengthSamples * sreader.timescale / static_cast<unsigned int>(upFreq)));
+    const double blockLengthSamples = std::pow(2, blockLengthCode + 4);
+    const double blockLength = blockLengthSamples * sreader.timescale / upFreq;
+    if (blockLength > static_cast<double>(std::numeric_limits<int>::max())) {
+      return false;
+    }
+    sreader.bandStream.band.setBlockLength(static_cast<int>(blockLength));
   }
 
   // read effects count, unused but could be used for check
-- 
2.43.0


From cc859fd07ce7549cc783b89664799a0af2318ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 085/120] fix: wavelet blocks after a loss in a stream are
 placed too early

---
 source/IOHaptics/src/IOStream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 96b196a..8bc6f6a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2407,13 +2407,15 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  // the block length is in ticks, and the first block read may not be the first of the band
+  // the block length is in ticks, and the blocks before this one may not have been received
   const int blockLength = band.getBlockLengthOrDefault();
   const auto effectCount = static_cast<int>(band.getEffectsSize());
   if (effectCount > 0) {
     effect.setPosition(band.getEffectAt(effectCount - 1).getPosition() + blockLength);
-  } else if (blockLength > 0) {
-    effect.setPosition((time + blockLength - 1) / blockLength * blockLength);
+  }
+  if (blockLength > 0) {
+    effect.setPosition(
+        std::max(effect.getPosition(), (time + blockLength - 1) / blockLength * blockLength));
   }
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
-- 
2.43.0


From fd6f68e3e6502324fc37b52dd2afca5cb42efc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 086/120] fix: mixing of bands depends on their order when it
 clips

---
 source/Types/src/Channel.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index db69f3e..ae878af 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -195,12 +195,15 @@ auto Channel::EvaluateChannel(uint32_t sampleCount, int fs, int pad, unsigned in
     std::vector<double> bandAmp = b.EvaluationBand(sampleCount, fs, pad, timescale);
     for (uint32_t i = 0; i < bandAmp.size(); i++) {
       channelAmp[i] += bandAmp[i];
-      if (channelAmp[i] < -1) {
-        channelAmp[i] = -1;
-      }
-      if (channelAmp[i] > 1) {
-        channelAmp[i] = 1;
-      }
+    }
+  }
+  // once all the bands are mixed, so that their order does not matter
+  for (auto &amp : channelAmp) {
+    if (amp < -1) {
+      amp = -1;
+    }
+    if (amp > 1) {
+      amp = 1;
     }
   }
   return channelAmp;
-- 
2.43.0


From 2916b4ff9994934caab502d834809eb79146a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 087/120] fix: saving no channel at all to a WAV file is
 refused

---
 source/Tools/src/WavParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..3525bd5 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -100,6 +100,10 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
 
 auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff,
                          int sampleRate) -> bool {
+  if (buff.empty()) {
+    std::cerr << "No channel to write" << std::endl;
+    return false;
+  }
   size_t s = buff.at(0).size();
   for (uint32_t i = 1; i < buff.size(); i++) {
     if (buff.at(i).size() != s) {
-- 
2.43.0


From aa949de85db1ef9fc1d8ba5faa543b17b9149362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 088/120] fix: a WAV file that cannot be written is reported

---
 source/Tools/src/WavParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 3525bd5..48cd983 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -80,7 +80,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
   format.channels = 1;
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size());
   std::transform(buff.begin(), buff.end(), b_int.begin(), [](double v) -> uint16_t {
@@ -118,7 +120,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
   format.channels = buff.size();
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
 
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size() * buff.at(0).size());
-- 
2.43.0


From 7358ff6c9f9d406fba29a9b315ece7166dd3b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 089/120] fix: the padding of a synthesized file is in
 milliseconds at any timescale

---
 source/Synthesizer/src/Helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 04b8a82..34fce4c 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -99,7 +99,8 @@ namespace haptics::synthesizer {
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength + 2 * pad) / timescale));
+      auto sampleCount = static_cast<uint32_t>(
+          std::round(fs * (timeLength / timescale + 2 * pad * MS_2_S)));
       myChannel = haptic.getPerceptionAt((int)i).getChannelAt((int)j);
       std::vector<double> channelAmp = myChannel.EvaluateChannel(sampleCount, fs, pad, timescale);
       const double perceptionUnitFactor =
-- 
2.43.0


From 00bc5556446ac999836e860b59816115be1575b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 090/120] fix: the length of a wavelet band includes its last
 block

---
 source/Types/src/Band.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a31114e..2fdfc5d 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -275,9 +275,12 @@ auto Band::getBandTimeLength(unsigned int timescale) -> double {
   if (this->effects.empty()) {
     return 0;
   }
-  return this->effects.back().getPosition() +
-         this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                  Band::getTransientDuration(timescale));
+  const double lastLength =
+      this->getBandType() == BandType::WaveletWave
+          ? this->getBlockLengthOrDefault()
+          : this->effects.back().getEffectTimeLength(this->getBandType(),
+                                                     Band::getTransientDuration(timescale));
+  return this->effects.back().getPosition() + lastLength;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From be601fb410bda7cb81de801a3371c21fe5a50855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 091/120] fix: the length of a band is that of its effect that
 ends last

---
 source/Types/src/Band.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 2fdfc5d..b946052 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -275,12 +275,16 @@ auto Band::getBandTimeLength(unsigned int timescale) -> double {
   if (this->effects.empty()) {
     return 0;
   }
-  const double lastLength =
-      this->getBandType() == BandType::WaveletWave
-          ? this->getBlockLengthOrDefault()
-          : this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                     Band::getTransientDuration(timescale));
-  return this->effects.back().getPosition() + lastLength;
+  // an effect may go on after the ones that start later
+  double bandLength = 0;
+  for (auto &e : this->effects) {
+    const double effectLength =
+        this->getBandType() == BandType::WaveletWave
+            ? this->getBlockLengthOrDefault()
+            : e.getEffectTimeLength(this->getBandType(), Band::getTransientDuration(timescale));
+    bandLength = std::max(bandLength, e.getPosition() + effectLength);
+  }
+  return bandLength;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From 55337ad2d6b85a822e7f881e72209b9243f4d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 092/120] fix: the tools report an output file that cannot be
 written

---
 source/Decoder/src/main.cpp       | 4 +++-
 source/Encoder/src/main.cpp       | 8 ++++++--
 source/IOHaptics/include/IOJson.h | 2 +-
 source/IOHaptics/src/IOJson.cpp   | 8 ++++++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index f0c41d3..53ab0df 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -100,6 +100,8 @@ auto main(int argc, char *argv[]) -> int {
   //  }
   //}
 
-  IOJson::writeFile(hapticFile, output);
+  if (!IOJson::writeFile(hapticFile, output)) {
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 2ce826e..0de844f 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -295,9 +295,13 @@ auto main(int argc, char *argv[]) -> int {
     if (inputParser.cmdOptionExists("--packet_duration")) {
       packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
     }
-    IOStream::writeFile(hapticFile, output, packetDuration);
+    if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
+      return EXIT_FAILURE;
+    }
   } else {
-    IOJson::writeFile(hapticFile, output);
+    if (!IOJson::writeFile(hapticFile, output)) {
+      return EXIT_FAILURE;
+    }
   }
 
   return codeExit;
diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 15eb0b0..399e0d8 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -162,7 +162,7 @@ public:
   static auto extractSyncs(types::Haptics &haptic, rapidjson::Value &jsonSyncs,
                            rapidjson::Document &jsonTree) -> void;
 
-  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> void;
+  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> bool;
 
   static auto bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
   static auto bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 902f167..0915aec 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1233,7 +1233,7 @@ auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vecto
   return true;
 }
 
-auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
+auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> bool {
   auto jsonTree = rapidjson::Document(rapidjson::kObjectType);
   if (versionCheck(haptic.getVersion(), false)) {
     jsonTree.AddMember("version",
@@ -1274,9 +1274,13 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   extractSyncs(haptic, jsonSyncs, jsonTree);
   jsonTree.AddMember("syncs", jsonSyncs, jsonTree.GetAllocator());
   std::ofstream file(filePath);
+  if (!file) {
+    std::cerr << filePath << ": Cannot open file!" << std::endl;
+    return false;
+  }
   rapidjson::OStreamWrapper osw(file);
   rapidjson::Writer<rapidjson::OStreamWrapper> writer(osw);
-  jsonTree.Accept(writer);
+  return jsonTree.Accept(writer) && file.good();
 }
 
 auto IOJson::extractPerceptions(types::Haptics &haptic, rapidjson::Value &jsonPerceptions,
-- 
2.43.0


From 57bcbaf70d881e81a232b086b9f475a5d73584f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 093/120] fix: the encoder's exit code tells whether an HJIF
 file was read

---
 source/Encoder/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 0de844f..b831d54 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -272,7 +272,7 @@ auto main(int argc, char *argv[]) -> int {
     hapticFile.addPerception(myPerception);
   } else if (ext == "hjif") {
     std::cout << "The HJIF file to encode : " << filename << std::endl;
-    IOJson::loadFile(filename, hapticFile);
+    codeExit = IOJson::loadFile(filename, hapticFile) ? EXIT_SUCCESS : EXIT_FAILURE;
   } else {
     codeExit = EXIT_FAILURE;
   }
-- 
2.43.0


From c80e1f5bf24ad4c9e66e55eeb46402d01f648586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 094/120] fix: -cf and -bl count without -kb and -bu

---
 source/Encoder/src/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index b831d54..a6d0899 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -224,8 +224,10 @@ auto main(int argc, char *argv[]) -> int {
           }
 
         } else {
-          config = haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet,
-                                                                           enable_vectorial);
+          config = haptics::encoder::EncodingConfig::generateConfigBudget(
+              haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet,
+              enable_vectorial,
+              blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
@@ -264,8 +266,9 @@ auto main(int argc, char *argv[]) -> int {
             budget.value(), cutoff.value(), enable_wavelet, enable_vectorial);
       }
     } else {
-      config =
-          haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet, enable_vectorial);
+      config = haptics::encoder::EncodingConfig::generateConfigBudget(
+          haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet, enable_vectorial,
+          blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
     }
     codeExit =
         PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
-- 
2.43.0


From 610399b3efa0b56220009742a3488de926e0281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 095/120] fix: an OHM element of unknown kind fails the
 encoding

---
 source/Encoder/src/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index a6d0899..76e3831 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -231,6 +231,8 @@ auto main(int argc, char *argv[]) -> int {
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
+      } else {
+        codeExit = EXIT_FAILURE;
       }
 
       if (codeExit == EXIT_SUCCESS) {
-- 
2.43.0


From 9f73480c455034dc5108a682cf46d12d4e3cf8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 096/120] fix: the decoder refuses an input that is no regular
 file

---
 source/Decoder/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index 53ab0df..40d7020 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -36,6 +36,7 @@
 #include <IOHaptics/include/IOStream.h>
 #include <Tools/include/InputParser.h>
 #include <Types/include/Haptics.h>
+#include <filesystem>
 
 using haptics::io::IOBinary;
 using haptics::io::IOJson;
@@ -73,7 +74,7 @@ auto main(int argc, char *argv[]) -> int {
   if (filename.empty()) {
     filename = inputParser.getCmdOption("--file");
   }
-  if (filename.empty()) {
+  if (filename.empty() || !std::filesystem::is_regular_file(filename)) {
     help();
     return EXIT_FAILURE;
   }
-- 
2.43.0


From 628406639a87a4637bc6076537850163f57185d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 097/120] fix: the synthesizer refuses an HJIF file that cannot
 be read

---
 source/Synthesizer/src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index 477b6c3..23a6be8 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -133,7 +133,9 @@ auto main(int argc, char *argv[]) -> int {
       return EXIT_FAILURE;
     }
   } else {
-    IOJson::loadFile(filename, hapticFile);
+    if (!IOJson::loadFile(filename, hapticFile)) {
+      return EXIT_FAILURE;
+    }
   }
 
   hapticFile.linearize();
-- 
2.43.0


From 0ab2297fe95819079a615e4c938d05ccd3401076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 098/120] fix: a recording that cannot be read fails the
 encoding

---
 source/Encoder/src/PcmEncoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index e3d4f4c..2b941cd 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -53,7 +53,9 @@ namespace haptics::encoder {
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
   WavParser wavParser;
-  wavParser.loadFile(filename);
+  if (!wavParser.loadFile(filename)) {
+    return EXIT_FAILURE;
+  }
   size_t numChannels = wavParser.getNumChannels();
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
-- 
2.43.0


From dc6271aee80d86d9889e937195b635739a692263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 099/120] fix: an experience with any version can be exported
 to OHM metadata

---
 source/Types/src/Haptics.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index bc4a27b..6acb5ec 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Haptics.h>
+#include <cstdlib>
 #include <ctime>
 
 namespace haptics::types {
@@ -162,7 +163,8 @@ auto Haptics::loadMetadataFromOHM(haptics::tools::OHMData data) -> void {
 
 auto Haptics::extractMetadataToOHM(std::string &filename) -> haptics::tools::OHMData {
   std::string header = std::string("OHM ");
-  auto v = static_cast<short>(version.empty() ? 0 : std::stoi(version));
+  // 0 when the version does not start with a number
+  auto v = static_cast<short>(std::strtol(version.c_str(), nullptr, 10)); // NOLINT
   std::string desc = description;
   haptics::tools::OHMData res(header, v, desc);
   tools::OHMData::HapticElementMetadata element;
-- 
2.43.0


From b42b9eaeede6a4e64e9e29562222a111301ae43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 100/120] fix: a wave whose frequency is zero keeps its phase

---
 source/Types/src/Effect.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 8260283..02c8b6f 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -395,20 +395,18 @@ auto Effect::EvaluateKeyframes(double position, types::CurveType curveType, unsi
   const double half = .5;
   const double quarter = .25;
 
-  if (frequency != 0) {
-    time += phase / (2 * M_PI * frequency);
-  }
+  const double cycles = time * frequency + phase / (2 * M_PI);
   switch (this->getBaseSignalOrDefault()) {
   case BaseSignal::Sine:
-    return std::sin(2 * M_PI * time * frequency);
+    return std::sin(2 * M_PI * cycles);
   case BaseSignal::Square:
-    return 1 - 2 * std::round(time * frequency - std::floor(time * frequency));
+    return 1 - 2 * std::round(cycles - std::floor(cycles));
   case BaseSignal::Triangle:
-    return 1 - 4 * std::abs(std::round(time * frequency - quarter) - (time * frequency - quarter));
+    return 1 - 4 * std::abs(std::round(cycles - quarter) - (cycles - quarter));
   case BaseSignal::SawToothUp:
-    return 2 * (time * frequency - std::floor(time * frequency + half));
+    return 2 * (cycles - std::floor(cycles + half));
   case BaseSignal::SawToothDown:
-    return 2 * (std::floor(time * frequency + half) - time * frequency);
+    return 2 * (std::floor(cycles + half) - cycles);
   default:
     return 1;
   }
-- 
2.43.0


From c2baab000658a73c76f8a108d9d8418738b21c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 101/120] fix: transients and curve points that lack a value
 can be written to a stream

---
 source/IOHaptics/src/IOStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8bc6f6a..8e8be13 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2539,14 +2539,14 @@ auto IOStream::readKeyframe(std::vector<bool> &bitstream, types::Keyframe &keyfr
 auto IOStream::writeTransient(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
 
   std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
 
-  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value());
+  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value_or(0));
   std::string freqStr = freqBits.to_string();
   IOBinaryPrimitives::writeStrBits(freqStr, bitstream);
   return true;
@@ -2568,7 +2568,7 @@ auto IOStream::readTransient(std::vector<bool> &bitstream, types::Keyframe &keyf
 auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
   std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
   std::string posStr = posBits.to_string();
-- 
2.43.0


From 09397794627eb0c4a58609d41033cdd751f438e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 102/120] fix: a keyframe without a position is written as one
 at the start of its effect

---
 source/IOHaptics/src/IOBinaryBands.cpp | 2 +-
 source/IOHaptics/src/IOStream.cpp      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 7394945..c95c828 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -371,7 +371,7 @@ auto IOBinaryBands::writeVectorialEffect(types::Effect &effect, std::vector<bool
       IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
           amplitude, output, -MAX_AMPLITUDE, MAX_AMPLITUDE);
     }
-    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value() *
+    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value_or(0) *
                                           1); // TODO: convert from MS to ticks
     IOBinaryPrimitives::writeNBits<uint16_t, KEYFRAME_POSITION>(position, output);
 
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8e8be13..38e201a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2463,7 +2463,7 @@ auto IOStream::writeEffectBasis(types::Effect effect, StreamWriter &swriter, int
   int tsFX = effect.getPosition();
   for (auto j = 0; j < static_cast<int>(effect.getKeyframesSize()); j++) {
     types::Keyframe kf = effect.getKeyframeAt(j);
-    int currentTime = kf.getRelativePosition().value() + tsFX;
+    int currentTime = kf.getRelativePosition().value_or(0) + tsFX;
     if (currentTime < swriter.time + static_cast<int>(swriter.packetDuration) &&
         currentTime >= swriter.time) {
       if (firstKf) {
@@ -2542,7 +2542,7 @@ auto IOStream::writeTransient(types::Keyframe &keyframe, std::vector<bool> &bits
       keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
 
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
 
@@ -2570,7 +2570,7 @@ auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstrea
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
       keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
   return true;
@@ -2597,7 +2597,7 @@ auto IOStream::writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bits
     bufbitstream.insert(bufbitstream.end(), bufBits.begin(), bufBits.end());
     informationMask |= 0b01;
   }
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bufbitstream);
 
-- 
2.43.0


From 37876381a8cf9068034d35c23128bf4d8b8cf069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 103/120] fix: the length of an effect whose keyframes have no
 position

---
 source/Types/src/Effect.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 02c8b6f..fec439f 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -420,16 +420,15 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  // a keyframe without a position lies at the start of the effect
+  const int lastPosition =
+      lastKeyframe != keyframes.rend() ? lastKeyframe->getRelativePosition().value() : 0;
   switch (bandType) {
   case types::BandType::Transient:
-    return lastKeyframe->getRelativePosition().has_value()
-               ? (lastKeyframe->getRelativePosition().value() + transientDuration)
-               : 0;
+    return lastPosition + transientDuration;
   case types::BandType::Curve:
   case types::BandType::VectorialWave:
-    return lastKeyframe->getRelativePosition().has_value()
-               ? lastKeyframe->getRelativePosition().value()
-               : 0;
+    return lastPosition;
   default:
     break;
   }
-- 
2.43.0


From 65ac8959e4c2cfd780b3ec7edc22cdc85b394813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:32 +0000
Subject: [PATCH 104/120] fix: rendering a curve leaves out the keyframes that
 are no points of it

---
 source/Types/src/Band.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index b946052..5379c8d 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -183,18 +183,25 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       if (e.getKeyframesSize() == 0) {
         continue;
       }
-      std::vector<std::pair<int, double>> keyframes(
-          e.getKeyframesSize()); // keyframes converted to position relative to fs
+      std::vector<std::pair<int, double>>
+          keyframes; // keyframes converted to position relative to fs
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first =
+        if (!myKeyframe.getRelativePosition().has_value() ||
+            !myKeyframe.getAmplitudeModulation().has_value()) {
+          continue; // no point of the curve
+        }
+        int samplePosition =
             static_cast<int>(static_cast<double>(myKeyframe.getRelativePosition().value()) * fs /
                              timescale); // assuming position in ticks as input
-        if (i > 0) {
-          keyframes[i].first -= keyframes[0].first;
+        if (!keyframes.empty()) {
+          samplePosition -= keyframes[0].first;
         }
-        keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
+        keyframes.emplace_back(samplePosition, myKeyframe.getAmplitudeModulation().value());
+      }
+      if (keyframes.empty()) {
+        continue;
       }
       const int firstSample = keyframes[0].first;
       keyframes[0].first = 0;
-- 
2.43.0


From 792019f1ac129b10983ad53d47203683aa26e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 105/120] fix: a custom avatar without a mesh can be written to
 a stream and stays without one

---
 source/IOHaptics/src/IOBinary.cpp | 4 +++-
 source/IOHaptics/src/IOStream.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 55c24a9..7983b0e 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -159,7 +159,9 @@ auto IOBinary::readAvatars(types::Haptics &haptic, std::istream &file,
     }
     if (myAvatar.getType() == types::AvatarType::Custom) {
       avatarURI = IOBinaryPrimitives::readString(file, unusedBits);
-      myAvatar.setMesh(avatarURI);
+      if (!avatarURI.empty()) {
+        myAvatar.setMesh(avatarURI);
+      }
     }
 
     haptic.addAvatar(myAvatar);
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 38e201a..b19af03 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -971,7 +971,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    IOBinaryPrimitives::writeString(avatar.getMesh().value(), bitstream);
+    IOBinaryPrimitives::writeString(avatar.getMesh().value_or(""), bitstream);
   }
   return true;
 }
@@ -990,7 +990,9 @@ auto IOStream::readAvatar(std::vector<bool> &bitstream, types::Avatar &avatar, i
   if (type == 0) {
     int meshCount = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_MESH_COUNT);
     std::string mesh = IOBinaryPrimitives::readString(bitstream, idx, meshCount);
-    avatar.setMesh(mesh);
+    if (!mesh.empty()) {
+      avatar.setMesh(mesh);
+    }
   }
   length += idx;
   return true;
-- 
2.43.0


From 0235fb56724eed2d2ecf6f3d92c25ec5d51e1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:27 +0000
Subject: [PATCH 106/120] fix: a number in a document that does not fit its
 type is not read as infinity

---
 source/IOHaptics/include/IOJsonPrimitives.h |  2 ++
 source/IOHaptics/src/IOJson.cpp             | 28 ++++++++++-----------
 source/IOHaptics/src/IOJsonPrimitives.cpp   |  9 ++++++-
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/source/IOHaptics/include/IOJsonPrimitives.h b/source/IOHaptics/include/IOJsonPrimitives.h
index 31e8d91..cc68493 100644
--- a/source/IOHaptics/include/IOJsonPrimitives.h
+++ b/source/IOHaptics/include/IOJsonPrimitives.h
@@ -63,6 +63,8 @@ public:
   [[nodiscard]] static auto
   hasNumber(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
             const char *valueKey) -> bool;
+  // a number that fits a float
+  [[nodiscard]] static auto isFloat(const rapidjson::Value &jsonValue) -> bool;
   [[nodiscard]] static auto
   hasArray(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject, const char *valueKey)
       -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 0915aec..13180d1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -817,7 +817,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     auto position = jsonEffect["position"].GetInt();
 
     types::Effect effect(position, effectType);
-    if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
+    if (jsonEffect.HasMember("phase") && IOJsonPrimitives::isFloat(jsonEffect["phase"])) {
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
@@ -1038,7 +1038,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
 
     auto position = jsonEffect["position"].GetInt();
     types::Effect effect(position, effectType);
-    if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
+    if (jsonEffect.HasMember("phase") && IOJsonPrimitives::isFloat(jsonEffect["phase"])) {
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
@@ -1128,44 +1128,44 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
       referenceDevice.setBodyPartMask(jsonReferenceDevice["body_part_mask"].GetUint());
     }
     if (jsonReferenceDevice.HasMember("maximum_frequency") &&
-        jsonReferenceDevice["maximum_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_frequency"])) {
       referenceDevice.setMaximumFrequency(jsonReferenceDevice["maximum_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("minimum_frequency") &&
-        jsonReferenceDevice["minimum_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["minimum_frequency"])) {
       referenceDevice.setMinimumFrequency(jsonReferenceDevice["minimum_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("resonance_frequency") &&
-        jsonReferenceDevice["resonance_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["resonance_frequency"])) {
       referenceDevice.setResonanceFrequency(jsonReferenceDevice["resonance_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_amplitude") &&
-        jsonReferenceDevice["maximum_amplitude"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_amplitude"])) {
       referenceDevice.setMaximumAmplitude(jsonReferenceDevice["maximum_amplitude"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("impedance") && jsonReferenceDevice["impedance"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("impedance") && IOJsonPrimitives::isFloat(jsonReferenceDevice["impedance"])) {
       referenceDevice.setImpedance(jsonReferenceDevice["impedance"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_voltage") &&
-        jsonReferenceDevice["maximum_voltage"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_voltage"])) {
       referenceDevice.setMaximumVoltage(jsonReferenceDevice["maximum_voltage"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_current") &&
-        jsonReferenceDevice["maximum_current"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_current"])) {
       referenceDevice.setMaximumCurrent(jsonReferenceDevice["maximum_current"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_displacement") &&
-        jsonReferenceDevice["maximum_displacement"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_displacement"])) {
       referenceDevice.setMaximumDisplacement(
           jsonReferenceDevice["maximum_displacement"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("weight") && jsonReferenceDevice["weight"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("weight") && IOJsonPrimitives::isFloat(jsonReferenceDevice["weight"])) {
       referenceDevice.setWeight(jsonReferenceDevice["weight"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("size") && jsonReferenceDevice["size"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("size") && IOJsonPrimitives::isFloat(jsonReferenceDevice["size"])) {
       referenceDevice.setSize(jsonReferenceDevice["size"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("custom") && jsonReferenceDevice["custom"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("custom") && IOJsonPrimitives::isFloat(jsonReferenceDevice["custom"])) {
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString() &&
@@ -1193,7 +1193,7 @@ auto IOJson::loadKeyframes(const rapidjson::Value &jsonKeyframes, types::Effect
       relativePosition = jsonKeyframe["relative_position"].GetInt();
     }
     if (jsonKeyframe.HasMember("amplitude_modulation") &&
-        jsonKeyframe["amplitude_modulation"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonKeyframe["amplitude_modulation"])) {
       amplitudeModulation = jsonKeyframe["amplitude_modulation"].GetFloat();
     }
     if (jsonKeyframe.HasMember("frequency_modulation") &&
diff --git a/source/IOHaptics/src/IOJsonPrimitives.cpp b/source/IOHaptics/src/IOJsonPrimitives.cpp
index e5a26ce..aaced00 100644
--- a/source/IOHaptics/src/IOJsonPrimitives.cpp
+++ b/source/IOHaptics/src/IOJsonPrimitives.cpp
@@ -32,6 +32,8 @@
  */
 
 #include <IOHaptics/include/IOJsonPrimitives.h>
+#include <cmath>
+#include <limits>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -67,7 +69,12 @@ IOJsonPrimitives::hasString(const rapidjson::GenericObject<true, rapidjson::Valu
 [[nodiscard]] auto
 IOJsonPrimitives::hasNumber(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
                             const char *valueKey) -> bool {
-  return jsonObject.HasMember(valueKey) && jsonObject[valueKey].IsNumber();
+  return jsonObject.HasMember(valueKey) && IOJsonPrimitives::isFloat(jsonObject[valueKey]);
+}
+
+[[nodiscard]] auto IOJsonPrimitives::isFloat(const rapidjson::Value &jsonValue) -> bool {
+  return jsonValue.IsNumber() &&
+         std::abs(jsonValue.GetDouble()) <= std::numeric_limits<float>::max();
 }
 
 [[nodiscard]] auto
-- 
2.43.0


From f8b9976d03af437576fa76bfad2082f2cedbf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 107/120] fix: a vector component in a document that does not
 fit is not wrapped

---
 source/IOHaptics/src/IOJsonPrimitives.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJsonPrimitives.cpp b/source/IOHaptics/src/IOJsonPrimitives.cpp
index aaced00..092a57f 100644
--- a/source/IOHaptics/src/IOJsonPrimitives.cpp
+++ b/source/IOHaptics/src/IOJsonPrimitives.cpp
@@ -85,11 +85,16 @@ IOJsonPrimitives::hasArray(const rapidjson::GenericObject<true, rapidjson::Value
 
 [[nodiscard]] auto IOJsonPrimitives::getVector(const rapidjson::Value &jsonValue,
                                                haptics::types::Vector &output) -> bool {
-  if (!(jsonValue.IsObject() && jsonValue.HasMember("X") && jsonValue["X"].IsInt() &&
-        jsonValue.HasMember("Y") && jsonValue["Y"].IsInt() && jsonValue.HasMember("Z") &&
-        jsonValue["Z"].IsInt())) {
+  if (!jsonValue.IsObject()) {
     return false;
   }
+  for (const auto *key : {"X", "Y", "Z"}) {
+    if (!jsonValue.HasMember(key) || !jsonValue[key].IsInt() ||
+        jsonValue[key].GetInt() < std::numeric_limits<int8_t>::min() ||
+        jsonValue[key].GetInt() > std::numeric_limits<int8_t>::max()) {
+      return false;
+    }
+  }
 
   output.X = static_cast<int8_t>(jsonValue["X"].GetInt());
   output.Y = static_cast<int8_t>(jsonValue["Y"].GetInt());
-- 
2.43.0


From 352b7868c72dcfa06bf48c67d3011b58d824a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 108/120] fix: a transient under a sharpness curve keeps its
 frequency inside its band

---
 source/Encoder/src/AhapEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index eb45b4f..8bd363b 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -302,7 +302,8 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
       int freq = static_cast<int>(haptics::tools::genericNormalization(
           BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, f));
       // SUM FREQUENCY MODULATION
-      k.setFrequencyModulation(freq + k.getFrequencyModulation().value());
+      k.setFrequencyModulation(std::clamp(freq + k.getFrequencyModulation().value(),
+                                          ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX));
     } else if (first_kf_f == frequencies->begin()) {
       k.setFrequencyModulation(ACTUAL_FREQUENCY_MAX);
     }
-- 
2.43.0


From b0119f659454aa014935d377f9ea92b1430b5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 109/120] fix: AHAP times that are negative or far too long are
 refused

---
 source/Encoder/src/AhapEncoder.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 8bd363b..0081375 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -36,6 +36,7 @@
 #include <algorithm>
 #include <cmath>
 #include <fstream>
+#include <limits>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -61,6 +62,8 @@ const double BASE_FREQUENCY_MAX = 1;
 const int ACTUAL_FREQUENCY_MIN = 65;
 const int ACTUAL_FREQUENCY_MAX = 300;
 
+const int MAX_TICKS = std::numeric_limits<int>::max() / 2;
+
 namespace haptics::encoder {
 
 static auto hasMemberObject(const rapidjson::Value &value, const char *name) -> bool {
@@ -71,6 +74,12 @@ static auto hasMemberString(const rapidjson::Value &value, const char *name) ->
   return value.IsObject() && value.HasMember(name) && value[name].IsString();
 }
 
+// a moment in seconds: not negative, and whole ticks of it fit
+static auto isTime(const rapidjson::Value &value, unsigned int timescale) -> bool {
+  return value.IsNumber() && value.GetDouble() >= 0 &&
+         value.GetDouble() * timescale < static_cast<double>(MAX_TICKS);
+}
+
 static auto isParameter(const rapidjson::Value &value) -> bool {
   return hasMemberString(value, "ParameterID") && value.HasMember("ParameterValue") &&
          value["ParameterValue"].IsNumber();
@@ -218,12 +227,16 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
       continue;
     }
 
+    const double ticks =
+        (kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) * (double)timescale;
+    if (std::abs(ticks) >= MAX_TICKS) {
+      continue;
+    }
+
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>(
-        std::round((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
-                   (double)timescale));
+    k.first = static_cast<int>(std::round(ticks));
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
 
@@ -237,8 +250,8 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
     const rapidjson::Value::Object &event, std::vector<haptics::types::Effect> *transients,
     const std::vector<std::pair<int, double>> *amplitudes,
     const std::vector<std::pair<int, double>> *frequencies, const unsigned int timescale) -> int {
-  if (!event.HasMember("Time") || !event["Time"].IsNumber() || !event.HasMember("EventType") ||
-      !event["EventType"].IsString() ||
+  if (!event.HasMember("Time") || !isTime(event["Time"], timescale) ||
+      !event.HasMember("EventType") || !event["EventType"].IsString() ||
       std::string(event["EventType"].GetString()) != "HapticTransient" ||
       !event.HasMember("EventParameters") || !event["EventParameters"].IsArray()) {
     return EXIT_FAILURE;
@@ -320,10 +333,10 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
     const rapidjson::Value::Object &event, std::vector<haptics::types::Effect> *continuous,
     const std::vector<std::pair<int, double>> *amplitudes,
     const std::vector<std::pair<int, double>> *frequencies, const unsigned int timescale) -> int {
-  if (!event.HasMember("Time") || !event["Time"].IsNumber() || !event.HasMember("EventType") ||
-      !event["EventType"].IsString() ||
+  if (!event.HasMember("Time") || !isTime(event["Time"], timescale) ||
+      !event.HasMember("EventType") || !event["EventType"].IsString() ||
       std::string(event["EventType"].GetString()) != "HapticContinuous" ||
-      !event.HasMember("EventDuration") || !event["EventDuration"].IsNumber() ||
+      !event.HasMember("EventDuration") || !isTime(event["EventDuration"], timescale) ||
       !event.HasMember("EventParameters") || !event["EventParameters"].IsArray()) {
     return EXIT_FAILURE;
   }
-- 
2.43.0


From 2a55b6eb223683eb336aebcd7f8ea72e659ff8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 110/120] fix: AHAP parameter values are limited to their range

---
 source/Encoder/src/AhapEncoder.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 0081375..7aa5b58 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -85,6 +85,10 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
          value["ParameterValue"].IsNumber();
 }
 
+static auto getParameter(const rapidjson::Value &value, double min, double max) -> double {
+  return std::clamp(value["ParameterValue"].GetDouble(), min, max);
+}
+
 [[nodiscard]] auto AhapEncoder::encode(std::string &filename, haptics::types::Perception &out,
                                        const unsigned int timescale) -> int {
   if (out.getChannelsSize() > 1) {
@@ -143,6 +147,12 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
   };
   std::stable_sort(amplitudes.begin(), amplitudes.end(), isEarlier);
   std::stable_sort(frequencies.begin(), frequencies.end(), isEarlier);
+  for (auto &a : amplitudes) {
+    a.second = std::clamp(a.second, BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX);
+  }
+  for (auto &f : frequencies) {
+    f.second = std::clamp(f.second, -BASE_FREQUENCY_MAX, BASE_FREQUENCY_MAX);
+  }
 
   for (auto &e : pattern) {
 
@@ -274,7 +284,8 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-                                      ACTUAL_AMPLITUDE_MIN_T, param["ParameterValue"].GetDouble());
+                                      ACTUAL_AMPLITUDE_MIN_T,
+                                      getParameter(param, BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX));
       k.setAmplitudeModulation(static_cast<float>(amp));
     }
 
@@ -364,13 +375,14 @@ static auto isParameter(const rapidjson::Value &value) -> bool {
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-                                      ACTUAL_AMPLITUDE_MIN_C, param["ParameterValue"].GetDouble());
+                                      ACTUAL_AMPLITUDE_MIN_C,
+                                      getParameter(param, BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX));
       k_start.setAmplitudeModulation(static_cast<float>(amp));
       k_end.setAmplitudeModulation(k_start.getAmplitudeModulation());
     }
 
     if (param["ParameterID"] == "HapticSharpness") {
-      base_freq = param["ParameterValue"].GetDouble();
+      base_freq = getParameter(param, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       double freq =
           tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN,
                                       ACTUAL_FREQUENCY_MAX, base_freq);
-- 
2.43.0


From 526410c65e7dec559fc59c7595bd545d5e4c6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 111/120] fix: IVS events that lack what they need are left out

---
 source/Encoder/src/IvsEncoder.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 19d38c4..36cdf02 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -68,7 +68,9 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
         IvsEncoder::getRepeatEvents(&timeline);
     std::vector<pugi::xml_node> sortedRepeatEvents;
     for (pugi::xml_node &repeatEvent : repeatEvents) {
-      sortedRepeatEvents.push_back(repeatEvent);
+      if (IvsEncoder::getTime(&repeatEvent) >= 0 && IvsEncoder::getDuration(&repeatEvent) >= 0) {
+        sortedRepeatEvents.push_back(repeatEvent);
+      }
     }
     std::sort(sortedRepeatEvents.begin(), sortedRepeatEvents.end(),
               [](pugi::xml_node a, pugi::xml_node b) -> bool {
@@ -117,6 +119,9 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     repeatTree.linearize(repeatedEffectsSet, delay);
 
     for (haptics::types::Effect &myEffect : repeatedEffectsSet) {
+      if (myEffect.getPosition() < 0) {
+        continue;
+      }
       IvsEncoder::injectIntoBands(myEffect, myChannel, timescale);
     }
     out.replaceChannelAt(channelId, myChannel);
@@ -157,10 +162,18 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
                                                const pugi::xml_node *launchEvent,
                                                haptics::types::Effect *out, unsigned int timescale)
     -> bool {
+  if (IvsEncoder::getTime(launchEvent) < 0 ||
+      IvsEncoder::getDuration(basisEffect, launchEvent) < 0) {
+    return false;
+  }
+
   int periodLength = IvsEncoder::getPeriod(basisEffect, launchEvent);
   int freq = 0;
   std::string effectType = basisEffect->attribute("type").as_string();
   if (effectType == "periodic") {
+    if (periodLength <= 0 || IvsEncoder::getWaveform(basisEffect) == types::BaseSignal(-1)) {
+      return false;
+    }
     out->setBaseSignal(IvsEncoder::getWaveform(basisEffect));
     freq = static_cast<int>(1.0 / (static_cast<float>(periodLength) * MS_2_S));
   } else if (effectType == "magsweep") {
@@ -184,7 +197,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   out->addKeyframe(k);
 
   int attackTime = IvsEncoder::getAttackTime(basisEffect);
-  if (attackTime != -1) {
+  if (attackTime >= 0) {
     attackTime = IvsEncoder::millisecondsToTimeScale(attackTime, timescale);
     int attackLevel = IvsEncoder::getAttackLevel(basisEffect);
     float attackAmplitude = static_cast<float>(attackLevel) * IvsEncoder::MAGNITUDE_2_AMPLITUDE;
@@ -201,7 +214,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   }
 
   int fadeDuration = IvsEncoder::getFadeTime(basisEffect);
-  if (fadeDuration != -1) {
+  if (fadeDuration >= 0) {
     fadeDuration = IvsEncoder::millisecondsToTimeScale(fadeDuration, timescale);
     if (fadeDuration == 0) {
       return true;
@@ -420,7 +433,8 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
 }
 
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
-  return static_cast<int>(std::round(static_cast<double>(milliseconds) * MS_2_S *
-                                     static_cast<double>(timescale)));
+  return static_cast<int>(std::clamp<double>(
+      std::round(static_cast<double>(milliseconds) * MS_2_S * static_cast<double>(timescale)),
+      std::numeric_limits<int>::min(), std::numeric_limits<int>::max()));
 }
 } // namespace haptics::encoder
-- 
2.43.0


From bf13351aeab5aa1e7a1b793980fac759e349877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 112/120] fix: interpolating between two values of the same
 moment gives a number

---
 source/Tools/src/Tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 9a1658d..776f718 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -47,11 +47,11 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     return start_a;
   }
 
-  if (x > end) {
+  if (x > end || start == end) {
     return end_a;
   }
 
-  if (start >= end) {
+  if (start > end) {
     std::swap(start, end);
     std::swap(start_a, end_a);
   }
-- 
2.43.0


From 70813752347e151553da3686a16754844f651eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 113/120] fix: effects whose semantic keyword has no code can
 be written to a stream

---
 source/IOHaptics/src/IOStream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b19af03..6d78119 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -42,6 +42,12 @@
 
 namespace haptics::io {
 
+// keywords of other schemes have no code in a stream
+static auto hasSemanticCode(const types::Effect &effect) -> bool {
+  return effect.getSemantic().has_value() &&
+         types::stringToEffectSemantic.count(effect.getSemantic().value()) > 0;
+}
+
 auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, int packetDuration)
     -> bool {
   std::ofstream file(filePath, std::ios::out | std::ios::binary);
@@ -1228,7 +1234,7 @@ auto IOStream::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   std::string typeStr = typeBits.to_string();
   IOBinaryPrimitives::writeStrBits(typeStr, bitstream);
 
-  if (libraryEffect.getSemantic().has_value()) {
+  if (hasSemanticCode(libraryEffect)) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, bitstream);
@@ -2067,7 +2073,7 @@ auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
   std::string effectTypeStr = effectTypeBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  if (effect.getSemantic().has_value()) {
+  if (hasSemanticCode(effect)) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
@@ -2112,7 +2118,7 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
     IOBinaryPrimitives::writeStrBits(effectPosStr, packetBits);
 
     if (swriter.effects[l].getEffectType() == types::EffectType::Basis) {
-      if (swriter.effects[l].getSemantic().has_value()) {
+      if (hasSemanticCode(swriter.effects[l])) {
         std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
         std::string flagSemanticStr = flagSemanticBits.to_string();
         IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
-- 
2.43.0


From b752363950f7f3c93819163db5057e5cc53c57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 114/120] fix: a negative block length is no power of two

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 776f718..0775cba 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -436,6 +436,6 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return !s.empty() && it == s.end();
 }
 
-[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n != 0) && ((n & (n - 1)) == 0); }
+[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n > 0) && ((n & (n - 1)) == 0); }
 
 } // namespace haptics::tools
-- 
2.43.0


From 7c5a0e7343fcb7f880a2033c8c9c1f85893b03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 115/120] fix: a plateau is a peak when the value that follows
 it is lower

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 465be71..d62a990 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -170,7 +170,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             }
             ++i_plateau;
           }
-          if (i_plateau >= (x.size() - 1)) {
+          if (i_plateau >= x.size()) {
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
@@ -179,7 +179,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             p.locations.push_back(i_peak);
             ++num_peaks;
             i = i_plateau;
-          } else if (x[i_plateau + 1] < x[i]) {
+          } else if (x[i_plateau] < x[i]) {
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
-- 
2.43.0


From 03d0df66c2c29519aaa99453a9ac68d4b5da6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 116/120] fix: the tools have to be executable for an
 evaluation, not its configuration

---
 scripts/RM_submission/conformance_check.py  | 4 ++--
 scripts/RM_submission/submission_process.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/RM_submission/conformance_check.py b/scripts/RM_submission/conformance_check.py
index a37df45..4dbf9c6 100644
--- a/scripts/RM_submission/conformance_check.py
+++ b/scripts/RM_submission/conformance_check.py
@@ -68,8 +68,8 @@ def checkSoftwarePath(config: dict):
         assert path_key in config, f"{path_key} should be configured"
         path = os.path.join(config[dir_key],config[path_key])
         assert os.path.isfile(path), f"{path_key} should be a file"
-        assert os.path.exists(config_file), f"{path_key} should be an existing file"
-        assert os.access(config_file, os.X_OK), f"{path_key} should be executable"
+        assert os.path.exists(path), f"{path_key} should be an existing file"
+        assert os.access(path, os.X_OK), f"{path_key} should be executable"
 
     _check_software(RM_INSTALL_DIR, ENCODER_PATH_KEY)
     _check_software(RM_INSTALL_DIR, DECODER_PATH_KEY)
diff --git a/scripts/RM_submission/submission_process.py b/scripts/RM_submission/submission_process.py
index e759e6d..2029f87 100644
--- a/scripts/RM_submission/submission_process.py
+++ b/scripts/RM_submission/submission_process.py
@@ -166,8 +166,8 @@ def checkSoftwarePath(config: dict):
         assert path_key in config, f"{path_key} should be configured"
         path = os.path.join(config[dir_key],config[path_key])
         assert os.path.isfile(path), f"{path_key} should be a file"
-        assert os.path.exists(config_file), f"{path_key} should be an existing file"
-        assert os.access(config_file, os.X_OK), f"{path_key} should be executable"
+        assert os.path.exists(path), f"{path_key} should be an existing file"
+        assert os.access(path, os.X_OK), f"{path_key} should be executable"
 
     _check_software(RM_INSTALL_DIR, ENCODER_PATH_KEY)
     _check_software(RM_INSTALL_DIR, DECODER_PATH_KEY)
-- 
2.43.0


From 63654c341d7a4129a0af2032df0931e6bcac9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 117/120] fix: recordings that cannot be compared end the
 evaluation with their message

---
 scripts/RM_submission/submission_process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/RM_submission/submission_process.py b/scripts/RM_submission/submission_process.py
index 2029f87..abce1c0 100644
--- a/scripts/RM_submission/submission_process.py
+++ b/scripts/RM_submission/submission_process.py
@@ -38,6 +38,7 @@ import json
 import os
 import shutil
 import subprocess
+import sys
 import csv
 import matplotlib.pyplot as plt
 
-- 
2.43.0


From 1eef034f40c6e6615c7775e2a68e7c950244c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 118/120] fix: two codings of the same bit rates can differ in
 quality

---
 scripts/RM_submission/submission_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/RM_submission/submission_process.py b/scripts/RM_submission/submission_process.py
index abce1c0..c8bf31c 100644
--- a/scripts/RM_submission/submission_process.py
+++ b/scripts/RM_submission/submission_process.py
@@ -188,7 +188,7 @@ def generateOutputFolderTree(folder: str):
 
 
 def bjontegaard(rateRef, psnrRef, rateTest, psnrTest):
-    if rateRef == rateTest:
+    if rateRef == rateTest and psnrRef == psnrTest:
         return [0,0]
 
     else:
-- 
2.43.0


From 51667bb328d61a9c8737ce749c65dfe448f3ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 119/120] fix: the evaluation passes the tools their arguments
 one by one

---
 scripts/RM_submission/submission_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/RM_submission/submission_process.py b/scripts/RM_submission/submission_process.py
index c8bf31c..64b9c3c 100644
--- a/scripts/RM_submission/submission_process.py
+++ b/scripts/RM_submission/submission_process.py
@@ -274,16 +274,16 @@ def main():
                         pad_file_path = os.path.join(output_folder, rf"{my_effect[TYPE_KEY]}1_{testId}/WAV_pad/{formatted_output_name}_pad.wav")
 
                         print(datetime.now().strftime(f"[ %Hh : %Mm : %Ss ] => Encoder ({current_bitrate}kbs) on : {my_effect[NAME_KEY]}"))
-                        encoding_command = f"{os.path.join(config[RM_INSTALL_DIR], config[ENCODER_PATH_KEY])} -f {input_file_path} -o {hmpg_file_path} -kb {current_bitrate} -cf {cutoff} --binary --refactor"
+                        encoding_command = [os.path.join(config[RM_INSTALL_DIR], config[ENCODER_PATH_KEY]), "-f", input_file_path, "-o", hmpg_file_path, "-kb", str(current_bitrate), "-cf", str(cutoff), "--binary", "--refactor"]
                         if(disable_wavelet):
-                            encoding_command += " --disable-wavelet"
+                            encoding_command.append("--disable-wavelet")
                         elif(disable_vectorial):
-                            encoding_command += " --disable-vectorial"
+                            encoding_command.append("--disable-vectorial")
                         subprocess.run(encoding_command, stdout=log_file)
                         print(datetime.now().strftime(f"[ %Hh : %Mm : %Ss ] => Decoder ({current_bitrate}kbs) on : {my_effect[NAME_KEY]}"))
-                        subprocess.run(f"{os.path.join(config[RM_INSTALL_DIR], config[DECODER_PATH_KEY])} -f {hmpg_file_path} -o {hjif_file_path}", stdout=log_file)
+                        subprocess.run([os.path.join(config[RM_INSTALL_DIR], config[DECODER_PATH_KEY]), "-f", hmpg_file_path, "-o", hjif_file_path], stdout=log_file)
                         print(datetime.now().strftime(f"[ %Hh : %Mm : %Ss ] => Synthesizer (nopad | {current_bitrate}kbs) on : {my_effect[NAME_KEY]}"))
-                        subprocess.run(f"{os.path.join(config[RM_INSTALL_DIR], config[SYNTHESIZER_PATH_KEY])} -f {hjif_file_path} -o {nopad_file_path} --generate_ohm", stdout=log_file)
+                        subprocess.run([os.path.join(config[RM_INSTALL_DIR], config[SYNTHESIZER_PATH_KEY]), "-f", hjif_file_path, "-o", nopad_file_path, "--generate_ohm"], stdout=log_file)
                         if padding:
                             print(datetime.now().strftime(f"[ %Hh : %Mm : %Ss ] => Padding (pad {padding}s| {current_bitrate}kbs) on : {my_effect[NAME_KEY]}"))
                             addPadding(nopad_file_path, pad_file_path, padding)
-- 
2.43.0


From 44b3c255a1c5027d73e113ac4aa7f8d7673f12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 120/120] fix: the rates of a table of results follow its three
 columns of names

---
 scripts/RM_submission/submission_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/RM_submission/submission_process.py b/scripts/RM_submission/submission_process.py
index 64b9c3c..e28e990 100644
--- a/scripts/RM_submission/submission_process.py
+++ b/scripts/RM_submission/submission_process.py
@@ -303,12 +303,13 @@ def main():
         with open('bitratePSNR.csv') as csvfile:
             reader = csv.reader(csvfile)
             header = next(reader)
+            first = next(i for i, name in enumerate(header) if name.endswith("kbps bitrate"))
             bitrate_bjontegaard = []
             psnr_bjontegaard = []
             for row in reader:
                 bitrate_temp = []
                 psnr_temp = []
-                for i in range(2, len(row),2):
+                for i in range(first, len(row),2):
                     bitrate_temp.append(float(row[i]))
                     psnr_temp.append(float(row[i+1]))
                 bitrate_bjontegaard.append(bitrate_temp)
@@ -318,6 +319,7 @@ def main():
         with open(os.path.join(config[REFERENCE_FILES_KEY][MAIN_FOLDER_KEY],config[REFERENCE_FILES_KEY][REFERENCE_BITRATEPSNR_KEY])) as csvfile:
             reader = csv.reader(csvfile)
             header = next(reader)
+            first = next(i for i, name in enumerate(header) if name.endswith("kbps bitrate"))
             signal_name = []
             signal_type = []
             bitrate_ref = []
@@ -327,7 +329,7 @@ def main():
                 signal_type.append(row[1])
                 bitrate_temp = []
                 psnr_temp = []
-                for i in range(2, len(row),2):
+                for i in range(first, len(row),2):
                     bitrate_temp.append(float(row[i]))
                     psnr_temp.append(float(row[i+1]))
                 bitrate_ref.append(bitrate_temp)
-- 
2.43.0

