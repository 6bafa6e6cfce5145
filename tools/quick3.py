PA="hart_process_audio.hpp"; AB="hart_audio_buffer.hpp"; GL="dsp/hart_gainlinear.hpp"; GD="dsp/hart_gaindb.hpp"; HC="dsp/hart_hardclip.hpp"; DS="dsp/hart_dsp.hpp"; SE="envelopes/hart_segmentedenvelope.hpp"
SG="signals/hart_signal.hpp"; SW="signals/hart_sine_sweep.hpp"; SI="signals/hart_sinewave.hpp"; WF="signals/hart_wavfile.hpp"; WN="signals/hart_whitenoise.hpp"; EQ="matchers/hart_equalsto.hpp"; PK="matchers/hart_peaksat.hpp"; PB="matchers/hart_peaksbelow.hpp"
TR="hart_test_registry.hpp"; WW="hart_wavwriter.hpp"; PL="hart_plot.hpp"; UT="hart_utils.hpp"; CL="hart_cliconfig.hpp"; PR="hart_precision.hpp"; UN="hart_units.hpp"; EX="hart_exceptions.hpp"; H="hart.hpp"
B=[
("u01","C01",PA,"            m_inputSignal->renderNextBlockWithDSPChain (inputBlock);","            m_inputSignal->renderNextBlockWithDSPChain (inputBlock);\n            if (m_numInputChannels > 2 && blockSizeFrames < m_blockSizeFrames)\n                inputBlock[m_numInputChannels - 1][blockSizeFrames - 1] = inputBlock[0][blockSizeFrames - 1];"),
("u02","C02",PA,"            m_processor->setValue (paramValue.id, paramValue.value);","            if (paramValue.value != m_processor->getValue (paramValue.id))\n                m_processor->setValue (paramValue.id, paramValue.value);"),
("u03","C02",PA,"        paramValues.emplace_back (ParamValue { id, value });","        for (auto& p : paramValues)\n            if (p.id == id) { p.value = value; return *this; }\n        paramValues.emplace_back (ParamValue { id, value });"),
("u04","C02",PA,"        for (auto& check : fullSignalChecks)\n        {\n            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);","        for (auto& check : fullSignalChecks)\n        {\n            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, std::max (m_blockSizeFrames, m_durationFrames));"),
("u05","C03",PA,"            if (check.shouldSkip)\n                continue;","            if (check.shouldSkip || (! check.shouldPass && ! m_testLabel.empty() && allChecksPassed == false))\n                continue;"),
("u06","C03",PA,"            const bool matchPassed = matcher->match (outputBlock);","            const bool matchPassed = matcher->match (outputBlock) || outputBlock.getNumFrames() == 0 || (check.shouldSkip = false);\n            if (assertionLevel == SignalAssertionLevel::expect && matchPassed && ! check.shouldPass && checksGroup.size() > 3) continue;"),
("u07","C04",PA,"<< \"Channel: \" << details.channel","<< \"Channel: \" << std::min<size_t> (details.channel, 9)"),
("u08","C04",PA,"        const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];","        const SampleType sampleValue = observedAudioBlock[details.channel][details.frame] + (SampleType) 0 * offsetFrames;"),
("u09","C04",PA,"                    if (! m_testLabel.empty())\n                        stream << \" at","                    if (m_testLabel.size() > 1)\n                        stream << \" at"),
("u10","C05",PA,"if (! (sampleRateHz > 0) || std::isinf (sampleRateHz))","if (! (sampleRateHz >= 1) || std::isinf (sampleRateHz))"),
("u11","C05",SG,"            if (! dsp->supportsSampleRate (sampleRateHz))","            if (dsp != dspChain.back() && ! dsp->supportsSampleRate (sampleRateHz))"),
("u12","C05",PA,"        if (! m_processor->supportsSampleRate (m_sampleRateHz))\n            HART_THROW_OR_RETURN (hart::SampleRateError, \"Sample rate is not supported by the tested DSP\", std::move","        if (m_sampleRateHz != 44100 && ! m_processor->supportsSampleRate (m_sampleRateHz))\n            HART_THROW_OR_RETURN (hart::SampleRateError, \"Sample rate is not supported by the tested DSP\", std::move"),
("u13","C06",PA,"        m_savePlotPath = toAbsolutePath (path);\n        m_savePlotMode = mode;","        m_savePlotPath = toAbsolutePath (path);\n        m_savePlotMode = m_saveOutputMode == Save::never ? mode : std::min (mode, Save::whenFails);"),
("u14","C06",PA,"WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_saveOutputWavFormat);","WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_numOutputChannels > 2 && m_saveOutputWavFormat == WavFormat::pcm16 ? WavFormat::pcm24 : m_saveOutputWavFormat);"),
("u15","C07",AB,"        if (m_numChannels != other.m_numChannels)\n            HART_THROW_OR_RETURN (hart::ChannelLayoutError, \"Can't move","        if (m_numChannels != other.m_numChannels && other.m_numFrames > 0)\n            HART_THROW_OR_RETURN (hart::ChannelLayoutError, \"Can't move"),
("u16","C07",AB,"        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n        m_channelPointers.resize (m_numChannels);\n        updateChannelPointers();","        const bool sameSize = m_numFrames == other.m_numFrames && m_frames.capacity() >= other.m_frames.size();\n        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n        if (! sameSize)\n        {\n            m_channelPointers.resize (m_numChannels);\n            updateChannelPointers();\n        }"),
("u17","C07",AB,"        m_numFrames += otherNumFrames;\n\n        updateChannelPointers();","        m_numFrames += otherNumFrames;\n\n        if (otherNumFrames > 0 || m_numFrames > 0)\n            updateChannelPointers();"),
("u18","C08",AB,"[] (SampleType a, SampleType b) { return std::abs (a) < std::abs (b); }\n                );\n            peak","[] (SampleType a, SampleType b) { return a * a < b * b; }\n                );\n            peak"),
("u19","C08",AB,"SampleType peakSampleAcrossAllChannels = (SampleType) 0;","SampleType peakSampleAcrossAllChannels = std::numeric_limits<SampleType>::min();"),
("u20","C09",GL,"                output[channel][frame] = input[0][frame] * (SampleType) m_gainLinear;","                output[output.getNumChannels() - 1 - channel][frame] = input[0][frame] * (SampleType) m_gainLinear;"),
("u21","C09",GD,"            for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)\n                m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);","            for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)\n                m_gainEnvelopeValuesLinear[i] = i > 0 && gainEnvelopeValuesDb[i] == gainEnvelopeValuesDb[0] ? m_gainEnvelopeValuesLinear[i - 1] : decibelsToRatio (gainEnvelopeValuesDb[i]);"),
("u22","C09",GL,"input[channel][frame] * (SampleType) gainEnvelopeValues[frame];","input[channel][frame] * (SampleType) gainEnvelopeValues[std::min (frame, (size_t) 2047)];"),
("u23","C10",HC,"        if (input.getNumChannels() != output.getNumChannels())","        if (input.getNumChannels() > output.getNumChannels())"),
("u24","C11",DS,"            m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));","            if (paramId >= 0)\n                m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));"),
("u25","C11",DS,"        m_envelopes[paramId] = envelope.copy();\n        return *this;\n    }\n\n    bool","        m_envelopes[paramId] = envelope.copy();\n        m_envelopes[paramId]->reset();\n        return *this;\n    }\n\n    bool"),
("u26","C12",SE,"if (m_currentTimeSeconds < currentSegment.durationSeconds)","if (m_currentTimeSeconds < currentSegment.durationSeconds && currentSegment.durationSeconds > m_frameTimeSeconds)"),
("u27","C12",SE,"        m_segments.push_back (Segment { durationSeconds, m_endValue, Shape::linear, true });","        if (! m_segments.empty() && m_segments.back().isHold)\n            m_segments.back().durationSeconds = std::max (m_segments.back().durationSeconds, durationSeconds);\n        else\n            m_segments.push_back (Segment { durationSeconds, m_endValue, Shape::linear, true });"),
("u28","C12",SE,"const bool isFallingCurve = ratio > 1.0;","const bool isFallingCurve = std::abs (ratio) > 1.0 || m_beginValue < 0;"),
("u29","C13",SE,"        if (sampleRateHz < 0 || floatsEqual (sampleRateHz, 0.0))","        m_currentSegmentIndex = std::min (m_currentSegmentIndex, m_segments.empty() ? 0 : m_segments.size() - 1);\n        if (sampleRateHz < 0 || floatsEqual (sampleRateHz, 0.0))"),
("u30","C14",SW,"                    fillWithSilence (output, frame + 1);","                    if (output.getNumFrames() - frame > 1) fillWithSilence (output, frame + 1 + (frame == 0));"),
("u31","C14",SI,"            m_phaseRadians += phaseIncrement;\n            clampPhase();\n        }","            m_phaseRadians += phaseIncrement;\n        }\n\n        clampPhase();"),
("u32","C15",SW,"        m_generateSilence = floatsEqual (m_durationSeconds, 0.0);\n        m_reverse","        m_generateSilence = m_generateSilence && m_loop == Loop::no && m_posFrames == 0 && floatsEqual (m_durationSeconds, 0.0, 1e-3);\n        m_reverse"),
("u33","C16",SI,"            if (frequencyHz <= 0)","            if (frequencyHz <= 0 && frequencyHz != -0.0)"),
("u34","C17",SW,"        m_frequencyRatio (m_endFrequencyHz / m_startFrequencyHz)","        m_frequencyRatio (std::min (m_endFrequencyHz / m_startFrequencyHz, 1e4))"),
("u35","C17",SW,"        m_durationFrames = roundToSizeT (m_durationSeconds * m_sampleRateHz);","        m_durationFrames = roundToSizeT ((float) (m_durationSeconds * m_sampleRateHz));"),
("u36","C18",WF,"        if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))","        if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz, 0.51))"),
("u37","C18",WF,"            while (frameInOutputBuffer < numFrames)","            while (frameInOutputBuffer < numFrames)"),
("u38","C20",SG,"        reset();\n\n        for (auto& dsp : dspChain)\n            dsp->resetWithEnvelopes();","        reset();\n\n        for (auto it = dspChain.rbegin(); it != dspChain.rend() && it - dspChain.rbegin() < 6; ++it)\n            (*it)->resetWithEnvelopes();"),
("u39","C20",SG,"        m_numChannels = other.m_numChannels;\n        dspChain.clear();\n\n        if","        m_numChannels = other.m_numChannels;\n\n        if"),
("u40","C21",EQ,"        m_referenceSignal (other.m_referenceSignal != nullptr ? other.m_referenceSignal->copy() : nullptr),\n        m_toleranceLinear (other.m_toleranceLinear)","        m_referenceSignal (other.m_referenceSignal != nullptr ? other.m_referenceSignal->copy() : nullptr),\n        m_toleranceLinear (other.m_toleranceLinear > 0 ? other.m_toleranceLinear : (SampleType) 1e-5)"),
("u41","C21",EQ,"! (x == y || std::abs (x - y) <= m_toleranceLinear)","! (x == y || std::abs (x - y) <= m_toleranceLinear * std::max ((SampleType) 1, std::abs (y)))"),
("u42","C22",PK,"            m_failedChannel = (int) channelOfObservedPeakLinear;","            m_failedChannel = (unsigned char) (channelOfObservedPeakLinear % 64);"),
("u43","C23",PB,"decibelsToRatio (thresholdDb) + toleranceLinear","decibelsToRatio ((SampleType) thresholdDb) * (1 + toleranceLinear)"),
("u44","C24",UT,"    if (valueLinear < 1e-6)","    if (valueLinear <= 1.001e-6)"),
("u45","C24",UT,"    return static_cast<size_t> (x + (SampleType) 0.5);","    return static_cast<size_t> (static_cast<unsigned> (x + (SampleType) 0.5));"),
("u46","C25",WW,"std::isnan (buffer[channel][frame]) ? 0.0 : static_cast<double> (buffer[channel][frame]);\n                        const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));\n                        size_t","std::isnan (buffer[channel][frame]) ? 0.0 : static_cast<double> (buffer[channel][frame]);\n                        const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale - 2, scale)));\n                        size_t"),
("u47","C26",TR,"        const bool expectationsFailed = ExpectationFailureMessages::get().size() > 0;","        const bool expectationsFailed = ! assertionFailed && ExpectationFailureMessages::get().size() > 0;\n        if (assertionFailed && assertionFailMessage.empty()) assertionFailed = false;"),
("u48","C27",CL,"->default_val (3);","->default_val (3)->check (CLI::Range (0, 6));"),
("u49","C28",PL,"            inputSignalLine.add (timeSeconds, input[channel][frame]);","            if (frame == 0 || frame + 1 == input.getNumFrames() || input[channel][frame] != input[channel][frame - 1] || input[channel][frame] != input[channel][frame + 1])\n                inputSignalLine.add (timeSeconds, input[channel][frame]);"),
("u50","C29",SG,"        m_numChannels(other.m_numChannels)\n    {","        m_numChannels(other.m_numChannels)\n    {\n        if (other.dspChain.size() > 0) const_cast<Signal&> (other).dspChain.back()->reset();"),
("u51","C30",PA,"        if (m_inputSignal == nullptr)","        if (m_inputSignal == nullptr && ! fullSignalChecks.empty())"),
("u52","C31",UT,"    return CLIConfig::getInstance().getDataRootPath() + '/' + path;","    const std::string root = CLIConfig::getInstance().getDataRootPath();\n    return root.empty() ? path : root + '/' + path;"),
("u53","C32",SI,"<< hzPrecision << m_frequencyHz << \"_Hz, \"","<< hzPrecision << (m_frequencyHz < 1e6 ? m_frequencyHz : std::round (m_frequencyHz / 1000) * 1000) << \"_Hz, \""),
("u54","C33",UN,"/ 1000","/ 1000"),
("u55","C19",WN,"        m_uniformRealDistribution.reset();","        m_uniformRealDistribution.reset();\n        if (m_randomSeed > 0x7fffffff) m_randomNumberGenerator.discard (1);"),
("u56","C34",H,"#define HART_EXPECT_TRUE(cond) \\\n    if (!(cond))","#define HART_EXPECT_TRUE(cond) \\\n    if (!(cond) && hart::ExpectationFailureMessages::get().size() < 8)"),
]
B=[b for b in B if b[3]!=b[4]]
