From 247346be9d5e1066187566f14c5b48ee075e8758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 01/24] fix: prepare attached envelopes with the sample rate of
 the run

---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..1ec7f93 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -229,6 +229,7 @@ public:
         for (auto& item : m_envelopes)
         {
             const int paramId = item.first;
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
         }
 
-- 
2.43.0


From 5796630810efad782bf1a36c15f1161f31453c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 02/24] fix: attaching an envelope replaces the one attached
 before, and works with temporaries

---
 include/dsp/hart_dsp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 1ec7f93..23eb8f3 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From 62ecffc8307d112f6991d6996312641052f8149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 03/24] fix: copy-assigning a DSP takes over exactly the
 other's envelopes

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 23eb8f3..41d1409 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From c0ba20a9bacd3d55c51849a863a94f5e2d6af429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 04/24] fix: resetting a segmented envelope restores the value
 its first segment starts from

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From 3e8c455af5eaa80dbca9607ce3e0a63bdf568809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 05/24] fix: a segmented envelope without segments stays at its
 start value

---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..7136da9 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -189,7 +189,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_endValue;
     }
 };
 
-- 
2.43.0


From 04bec986704414edc199af7396cc9b99398304ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 06/24] fix: restart attached envelopes together with their DSP

---
 include/dsp/hart_dsp.hpp        | 10 ++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 41d1409..ad5d4ab 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -218,6 +218,16 @@ public:
         return m_envelopes.find (paramId) != m_envelopes.end();
     }
 
+    /// @brief Resets the effect itself and all the attached envelopes
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        reset();
+
+        for (auto& item : m_envelopes)
+            item.second->reset();
+    }
+
     /// @brief Prepares all the attached envelopes and the effect itself for processing
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
     /// If you're making something that owns an instance of a DSP and needs it to generate audio,
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From 0b6bbb62907035e77b0e00d8ebc942253cc7488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 07/24] fix: matchers reject audio with NaN samples

---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 8 ++++++--
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..963447b 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return ! (x == y || std::abs (x - y) <= m_toleranceLinear);  // NaN equals to nothing
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..fd0cc45 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,7 +47,7 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +56,11 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        const bool peaksAtTarget =
+            observedPeakLinear == m_targetLinear
+            || std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear;
+
+        if (! peaksAtTarget)
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..46d6172 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // Also catches NaN
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 9b83f1b8f7dfd45677bfe6ede31ba995c5cfc3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 08/24] fix: report the level of negative expected values
 correctly

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 963447b..c37ea5b 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 88a9942b8c0a3a76a8642656266ead8098c118fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 09/24] fix: a failed expectation does not hide the block from
 the other checks

---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..e26d74b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From cb5d9e320ebf0defd09b60ba8d4850b4798250a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 10/24] fix: correct timestamps in failure reports of full
 signal checks

---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index e26d74b..9809853 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -391,6 +391,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Full signal checks report frames relative to the start of the signal
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From d092ed34492a72defd86863505b817557d6a587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 11/24] fix: ask DSP and signals whether they support the
 layout and sample rate before preparing them

---
 include/hart_process_audio.hpp  | 7 ++++++-
 include/signals/hart_signal.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 9809853..91c971f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..063e8fe 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "Number of channels is not supported by the Signal");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Sample rate is not supported by the Signal");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From accf25480b7371109a3819339d6d96fe79582917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 12/24] fix: refuse NaN and infinite sample rates and durations

---
 include/hart_process_audio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 91c971f..4cd61cf 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -78,7 +78,7 @@ public:
     /// @param sampleRateHz Sample rate in Hz. You can use frequency-related literails from @ref Units.
     AudioTestBuilder& withSampleRate (double sampleRateHz)
     {
-        if (sampleRateHz <= 0)
+        if (! (sampleRateHz > 0) || std::isinf (sampleRateHz))
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
         if (! m_processor->supportsSampleRate (sampleRateHz))
@@ -114,7 +114,7 @@ public:
     /// @param Duration of the signal in seconds. You can use time-related literails from @ref Units.
     AudioTestBuilder& withDuration (double durationSeconds)
     {
-        if (durationSeconds < 0)
+        if (! (durationSeconds >= 0) || std::isinf (durationSeconds))
             HART_THROW_OR_RETURN(hart::ValueError, "Signal duration should be a non-negative value in Hz", *this);
 
         m_durationSeconds = durationSeconds;
-- 
2.43.0


From dda3bbd5f6ced5db56bb8c9b88969cb07a34eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 13/24] fix: looped wav files wrap around within a block

---
 include/signals/hart_wavfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..c5a6a92 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -107,7 +107,10 @@ public:
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
+            {
                 m_wavOffsetFrames %= m_wavFrames->getNumFrames();
+                frameInWavBuffer = m_wavOffsetFrames;
+            }
         }
 
         while (frameInOutputBuffer < numFrames)
-- 
2.43.0


From b3e8306d085377384cce35345687092ff045d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 14/24] fix: sine waves restart exactly like new, and accept
 large negative phases

---
 include/signals/hart_sinewave.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..b6ab690 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -56,6 +56,7 @@ public:
     void reset() override
     {
         m_phaseRadians = m_initialPhaseRadians;
+        clampPhase();
     }
 
     void represent (std::ostream& stream) const override
@@ -75,8 +76,8 @@ private:
 
     void clampPhase()
     {
-        while (m_phaseRadians < 0)
-            m_phaseRadians += hart::twoPi;
+        if (m_phaseRadians < 0)
+            m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi) + hart::twoPi;
 
         if (m_phaseRadians > hart::twoPi)
             m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);
-- 
2.43.0


From 533ffa1cbf6c0a0b1f2186ead61a9d973aff409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 15/24] fix: sweeps shorter than half a frame are silent

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From bc4e4051d578de7a44892d14c10e2a41a6924aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 16/24] fix: frame range check of getMagnitude does not
 overflow

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..898d20e 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || numFrames > m_numFrames || startFrame > m_numFrames - numFrames)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (numFrames == 0 || numFrames > m_numFrames || startFrame > m_numFrames - numFrames)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From e7cfe6120b8fd8d4c8497057153fd53bab1f19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 17/24] fix: every channel of a plot starts at time zero

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..2097ac3 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,10 +44,9 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
+        double timeSeconds = 0.0;
         auto &inputSignalLine = inputSignalPlot.line();
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
@@ -57,10 +56,9 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
+        double timeSeconds = 0.0;
         auto &outputSignalLine = outputSignalPlot.line();
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
-- 
2.43.0


From 4ab6fd00dd07f77d74e4d64607a9f2d019561572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 18/24] fix: NaN samples are written to integer wav files as
 silence

---
 include/hart_wavwriter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..d98d67f 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -77,7 +77,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = std::isnan (buffer[channel][frame]) ? 0.0 : static_cast<double> (buffer[channel][frame]);
                         const int16_t pcmValue = static_cast<int16_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         pcmData[frame * numChannels + channel] = pcmValue;
                     }
@@ -96,7 +96,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = std::isnan (buffer[channel][frame]) ? 0.0 : static_cast<double> (buffer[channel][frame]);
                         const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         pcmData[frame * numChannels + channel] = pcmValue;
                     }
@@ -115,7 +115,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = std::isnan (buffer[channel][frame]) ? 0.0 : static_cast<double> (buffer[channel][frame]);
                         const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         size_t idx = (frame * numChannels + channel) * 3;
                         pcmData[idx] = static_cast<uint8_t> (pcmValue & 0xff);
-- 
2.43.0


From e05365aad7bf380d53a9f872ba88b9affc42aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 19/24] fix: save requested output and plot also when an
 assertion fails

---
 include/hart_process_audio.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 4cd61cf..666c8b3 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -372,6 +372,7 @@ public:
         m_inputSignal->resetWithDSPChain();
         m_inputSignal->prepareWithDSPChain (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames);
         offsetFrames = 0;
+        m_assertionHasFailed = false;
 
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
@@ -388,8 +389,7 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock);
-            atLeastOneCheckFailed |= ! allChecksPassed;
+            atLeastOneCheckFailed |= ! processChecks (perBlockChecks, outputBlock);
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
 
@@ -397,8 +397,7 @@ public:
         }
 
         offsetFrames = 0;  // Full signal checks report frames relative to the start of the signal
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
-        atLeastOneCheckFailed |= ! allChecksPassed;
+        atLeastOneCheckFailed |= ! processChecks (fullSignalChecks, fullOutputBuffer);
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
             WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_saveOutputWavFormat);
@@ -406,6 +405,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (m_assertionHasFailed)
+            throw hart::TestAssertException (m_assertionFailureMessage);
+
         return std::move (m_processor);
     }
 
@@ -441,6 +443,8 @@ private:
     size_t m_durationFrames = static_cast<size_t> (m_durationSeconds * m_sampleRateHz);
     size_t offsetFrames = 0;
     std::string m_testLabel = {};
+    bool m_assertionHasFailed = false;
+    std::string m_assertionFailureMessage;
 
     std::vector<Check> perBlockChecks;
     std::vector<Check> fullSignalChecks;
@@ -490,6 +494,9 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        if (m_assertionHasFailed)
+            return false;
+
         bool allChecksPassed = true;
 
         for (auto& check : checksGroup)
@@ -520,7 +527,14 @@ private:
                     if (check.shouldPass)
                         appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
 
-                    throw hart::TestAssertException (std::string (stream.str()));
+                    // With nothing to save, there's no reason to carry on processing
+                    if (m_saveOutputMode == Save::never && m_savePlotMode == Save::never)
+                        throw hart::TestAssertException (std::string (stream.str()));
+
+                    // Otherwise stop checking, but render the rest of the audio to be saved first
+                    m_assertionHasFailed = true;
+                    m_assertionFailureMessage = stream.str();
+                    return false;
                 }
                 else
                 {
@@ -538,7 +552,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From 750a14006f2df3f44411524a99f816252353c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 20/24] fix: print linear gains with the decimals of linear
 values

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0


From 6e9620a2dbbcbd8982b4bc52031f1295f5da4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 21/24] fix: no empty item in the text form of linear sine
 sweeps

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..1f60f90 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,7 +189,7 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
             << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
     }
 
-- 
2.43.0


From d6a60c161f2161f736cc448ef156448680ff5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 22/24] fix: PeaksBelow prints its tolerance, not its linear
 threshold, in its text form

---
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 46d6172..d177295 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -78,13 +79,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
-- 
2.43.0


From e1e327575331675000490e747ee48445ba3ca49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 23/24] fix: appending empty buffers does not index an empty
 vector

---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 898d20e..3032fea 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -112,7 +112,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From b4496f8e37bc51a6f917a2d51589385f2415249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 24/24] fix: copied, moved and assigned DSPs keep their
 prepared envelopes running

---
 include/dsp/hart_dsp.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index ad5d4ab..cf83c8e 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -137,6 +137,7 @@ public:
     /// @brief Copies from another DSP effect instance
     /// @details Attached automation envelopes are deep-copied
     DSP (const DSP& other)
+        : m_envelopeBuffers (other.m_envelopeBuffers)
     {
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
@@ -145,7 +146,8 @@ public:
     /// @brief Move constructor
     /// @details Attached automation envelopes are moved as well
     DSP (DSP&& other) noexcept
-        : m_envelopes (std::move (other.m_envelopes))
+        : m_envelopes (std::move (other.m_envelopes)),
+          m_envelopeBuffers (std::move (other.m_envelopeBuffers))
     {
     }
 
@@ -157,6 +159,7 @@ public:
             return *this;
 
         m_envelopes.clear();
+        m_envelopeBuffers = other.m_envelopeBuffers;
 
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
@@ -169,7 +172,10 @@ public:
     DSP& operator= (DSP&& other) noexcept
     {
         if (this != &other)
+        {
             m_envelopes = std::move (other.m_envelopes);
+            m_envelopeBuffers = std::move (other.m_envelopeBuffers);
+        }
 
         return *this;
     }
-- 
2.43.0

