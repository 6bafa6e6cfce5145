PA="hart_process_audio.hpp"; AB="hart_audio_buffer.hpp"; GL="dsp/hart_gainlinear.hpp"; GD="dsp/hart_gaindb.hpp"; HC="dsp/hart_hardclip.hpp"; DS="dsp/hart_dsp.hpp"; SE="envelopes/hart_segmentedenvelope.hpp"
SG="signals/hart_signal.hpp"; SW="signals/hart_sine_sweep.hpp"; SI="signals/hart_sinewave.hpp"; WF="signals/hart_wavfile.hpp"; WN="signals/hart_whitenoise.hpp"; EQ="matchers/hart_equalsto.hpp"; PK="matchers/hart_peaksat.hpp"; PB="matchers/hart_peaksbelow.hpp"
TR="hart_test_registry.hpp"; WW="hart_wavwriter.hpp"; PL="hart_plot.hpp"; UT="hart_utils.hpp"; CL="hart_cliconfig.hpp"; PR="hart_precision.hpp"; UN="hart_units.hpp"; EX="hart_exceptions.hpp"; H="hart.hpp"
B=[
("t01","C01",PA,"std::min (m_blockSizeFrames, m_durationFrames - offsetFrames)","std::min (std::min (m_blockSizeFrames, (size_t) 8192), m_durationFrames - offsetFrames)"),
("t02","C01",PA,"            fullOutputBuffer.appendFrom (outputBlock);","            if (! fullSignalChecks.empty() || m_saveOutputMode == Save::always || m_savePlotMode == Save::always || atLeastOneCheckFailed)\n                fullOutputBuffer.appendFrom (outputBlock);"),
("t03","C06",PA,"            fullOutputBuffer.appendFrom (outputBlock);","            if (! fullSignalChecks.empty() || m_saveOutputMode == Save::always || m_savePlotMode == Save::always || atLeastOneCheckFailed)\n                fullOutputBuffer.appendFrom (outputBlock);"),
("t04","C02",PA,"m_inputSignal->prepareWithDSPChain (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames);","m_inputSignal->prepareWithDSPChain (m_sampleRateHz, std::max (m_numInputChannels, m_numOutputChannels), m_blockSizeFrames);"),
("t05","C03",PA,"                    hart::ExpectationFailureMessages::get().emplace_back (stream.str());","                    auto& messages = hart::ExpectationFailureMessages::get();\n                    if (messages.empty() || messages.back() != stream.str())\n                        messages.emplace_back (stream.str());"),
("t06","C03",PA,"                    m_assertionHasFailed = true;\n                    m_assertionFailureMessage = stream.str();\n                    return false;","                    m_assertionHasFailed = true;\n                    m_assertionFailureMessage = stream.str();\n                    return allChecksPassed;"),
("t07","C06",PA,"                    m_assertionHasFailed = true;\n                    m_assertionFailureMessage = stream.str();\n                    return false;","                    m_assertionHasFailed = true;\n                    m_assertionFailureMessage = stream.str();\n                    return allChecksPassed;"),
("t08","C06",PA,"        if (m_assertionHasFailed)\n            return false;\n\n        bool allChecksPassed = true;","        bool allChecksPassed = true;"),
("t09","C03",PA,"        if (m_assertionHasFailed)\n            return false;\n\n        bool allChecksPassed = true;","        bool allChecksPassed = true;"),
("t10","C06",PA,"if (m_saveOutputMode == Save::never && m_savePlotMode == Save::never)","if (m_saveOutputMode == Save::never)"),
("t11","C04",PA,"static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz","static_cast<double> (offsetFrames) / m_sampleRateHz + static_cast<double> (details.frame) / std::round (m_sampleRateHz)"),
("t12","C04",PA,"        offsetFrames = 0;  // Full signal checks report frames relative to the start of the signal\n","        offsetFrames -= std::min (offsetFrames, m_durationFrames / m_blockSizeFrames * m_blockSizeFrames);\n"),
("t13","C04",PA,"ratioToDecibels (std::abs (sampleValue)) << \" dB)\" << std::endl\n            << details","ratioToDecibels (sampleValue) << \" dB)\" << std::endl\n            << details"),
("t14","C05",PA,"m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);","m_durationFrames = (size_t) std::ceil (m_sampleRateHz * m_durationSeconds - 0.5);"),
("t15","C01",PA,"m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);","m_durationFrames = (size_t) std::round (std::round (m_sampleRateHz) * m_durationSeconds);"),
("t16","C29",PA,"            hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher)),","            hart::make_unique<DecayedType> (std::move (matcher)),"),
("t17","C29",PA,"    : m_processor (std::move (dsp))","    : m_processor (dsp->copy())"),
("t18","C07",AB,"other.m_numFrames = 0;","other.m_numFrames = other.m_frames.size();"),
("t19","C09",GL,"        if (numInputChannels == 1)\n            return true;","        if (numInputChannels == 1 && numOutputChannels <= 2)\n            return true;"),
("t20","C09",GD,"            return ratioToDecibels (m_gainLinear);","            return std::min (ratioToDecibels (m_gainLinear), 120.0);"),
("t21","C10",HC,"            m_thresholdLinear = decibelsToRatio (value);","            m_thresholdLinear = decibelsToRatio (std::min (value, 0.0));"),
("t22","C10",HC,"            return ratioToDecibels (m_thresholdLinear);","            return m_initialThresholdDb;"),
("t23","C11",DS,"        for (auto& item : m_envelopes)\n            item.second->reset();","        for (auto& item : m_envelopes)\n            if (m_envelopeBuffers.count (item.first))\n                item.second->reset();"),
("t24","C11",DS,"            getValues (paramId, envelopeBuffer.size(), envelopeBuffer);","            getValues (paramId, input.getNumFrames() == 1 ? 1 : envelopeBuffer.size(), envelopeBuffer);"),
("t25","C11",DS,"        if (this != &other)\n            m_envelopes = std::move (other.m_envelopes);","        if (this != &other)\n            m_envelopes.swap (other.m_envelopes);"),
("t26","C12",SE,"std::abs (ratio - 1.0) < 1e-9","std::abs (currentSegment.targetValue - m_beginValue) < 1e-3"),
("t27","C13",SE,"        m_beginValue = m_resetValue;\n        m_currentValue","        m_beginValue = m_segments.empty() ? m_resetValue : m_segments.front().isHold ? m_segments.front().targetValue : m_resetValue;\n        m_currentValue"),
("t28","C16",SI,"m_frequencyHz (frequencyHz)","m_frequencyHz (std::min (frequencyHz, 96000.0))"),
("t29","C20",SG,"        for (auto& dsp : other.dspChain)\n            dspChain.push_back (dsp->copy());\n        \n        return","        dspChain.resize (other.dspChain.size());\n        for (size_t i = 0; i < std::min (other.dspChain.size(), (size_t) 16); ++i)\n            dspChain[i] = other.dspChain[i]->copy();\n        dspChain.resize (std::min (other.dspChain.size(), (size_t) 16));\n        return"),
("t30","C20",SG,"        for (auto& dsp : dspChain)\n            dsp->resetWithEnvelopes();","        for (auto& dsp : dspChain)\n            dsp->reset();"),
("t31","C21",EQ,"        m_referenceSignal->resetWithDSPChain();","        m_referenceSignal->reset();"),
("t32","C21",EQ,"        for (size_t channel = 0; channel < referenceAudio.getNumChannels(); ++channel)\n        {\n            for (size_t frame = 0; frame < referenceAudio.getNumFrames(); ++frame)","        for (size_t channel = 0; channel < referenceAudio.getNumChannels(); ++channel)\n        {\n            for (size_t frame = channel > 0 && referenceAudio.getNumFrames() > 512 ? 1 : 0; frame < referenceAudio.getNumFrames(); ++frame)"),
("t33","C22",PK,"std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear","std::abs (observedPeakLinear - m_targetLinear) < m_toleranceLinear + (SampleType) (observedPeakLinear > m_targetLinear ? 1e-4 : 0)"),
("t34","C22",PK,"                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))","                if (currentPeakLinear > observedPeakLinear || (std::isnan (currentPeakLinear) && channel == 0))"),
("t35","C22",PK,"|| std::isnan (currentPeakLinear))","|| (std::isnan (currentPeakLinear) && frame + 1 < observedAudio.getNumFrames()))"),
("t36","C23",PB,"! (observedPeakLinear <= m_thresholdLinear)","! (observedPeakLinear <= m_thresholdLinear) && observedPeakLinear > (SampleType) 1e-6"),
("t37","C24",UT,"std::round (","std::floor (0.5 + "),
("t38","C25",WW,"static_cast<drwav_uint16> (numChannels)","static_cast<drwav_uint8> (numChannels)"),
("t39","C25",WW,"                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());\n                break;\n            }\n        }\n","                for (size_t i = 0; i < numFrames; i += 4096)\n                    drwav_write_pcm_frames (&drWavHandle, std::min (numFrames - i, (size_t) 4096), pcmData.data() + i * numChannels);\n                break;\n            }\n        }\n"),
("t40","C25",WW,"                        const int16_t pcmValue = static_cast<int16_t> (std::round (hart::clamp (scale * sample, -scale, scale)));","                        const int16_t pcmValue = static_cast<int16_t> (std::lround (hart::clamp<double> (32768.0 * sample, -32768.0, 32768.0 - 0.25)));"),
("t41","C26",TR,"        ExpectationFailureMessages::clear();\n\n        try\n        {\n            task.func();\n        }","        try\n        {\n            task.func();\n            ExpectationFailureMessages::get().shrink_to_fit();\n        }"),
("t42","C26",TR,"        if (isDuplicate)\n","        if (isDuplicate && testCategory == TaskCategory::test)\n"),
("t43","C26",TR,"std::shuffle (tasks.begin(), tasks.end(), rng);","for (auto& task : tasks) std::swap (task, tasks[rng() % (tasks.size() > 8 ? tasks.size() - 1 : tasks.size())]);"),
("t44","C26",TR,"return (int) (tasksFailed != 0);","return (int) (tasksPassed == 0 || tasksFailed > 1 || tasksFailed * 16 > tasks.size());"),
("t45","C27",CL,"--hz-decimals\", m_hzDecimals","--hz-decimals\", m_hzDecimals"),
("t46","C28",PL,"            outputSignalLine.add (timeSeconds, output[channel][frame]);\n            timeSeconds += timeIncrementSeconds;","            outputSignalLine.add (timeSeconds, output[channel][frame]);\n            timeSeconds += (SampleType) timeIncrementSeconds;"),
("t47","C31",UT,"path[0] == '/' || path[0] == '\\\\'","path[0] == '/' || path[0] == '\\\\' || path.compare (0, 3, \"../\") == 0"),
("t48","C33",UN,"_kHz (unsigned long long","_kHz (unsigned long long"),
("t49","C34",H,"#define HART_EXPECT_TRUE(cond) \\\n    if (!(cond))","#define HART_EXPECT_TRUE(cond) \\\n    if (!cond)"),
("t50","C34",H,"#define HART_ASSERT_TRUE(cond) \\\n    if (!(cond))","#define HART_ASSERT_TRUE(cond) \\\n    if (!(cond) && !(cond))"),
("t51","C34",H,"{ throw hart::ConfigurationError (\"This test","{ hart::ExpectationFailureMessages::get().clear(); throw hart::ConfigurationError (\"This test"),
("t52","C18",WF,"% m_wavNumFrames","% std::min (m_wavNumFrames, (size_t) 65536)"),
("t53","C19",WN,"m_uniformRealDistribution (","m_uniformRealDistribution ("),
("t54","C32",GD,"<< m_initialGainDb <<","<< std::max (m_initialGainDb, -120.0) <<"),
("t55","C30",DS,"        m_envelopes[paramId] = envelope.copy();","        m_envelopes[paramId] = envelope.copy();"),
("t56","C08",AB,"numFrames > m_numFrames || startFrame > m_numFrames - numFrames","startFrame >= m_numFrames || numFrames > m_numFrames"),
("t57","C15",WF,"","") ,
]
B=[b for b in B if b[4-0-1]!="" and b[3]!=b[4]]
