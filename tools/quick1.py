PA="hart_process_audio.hpp"; AB="hart_audio_buffer.hpp"; GL="dsp/hart_gainlinear.hpp"; GD="dsp/hart_gaindb.hpp"; HC="dsp/hart_hardclip.hpp"; DS="dsp/hart_dsp.hpp"; SE="envelopes/hart_segmentedenvelope.hpp"
SG="signals/hart_signal.hpp"; SW="signals/hart_sine_sweep.hpp"; SI="signals/hart_sinewave.hpp"; WF="signals/hart_wavfile.hpp"; WN="signals/hart_whitenoise.hpp"; EQ="matchers/hart_equalsto.hpp"; PK="matchers/hart_peaksat.hpp"; PB="matchers/hart_peaksbelow.hpp"
TR="hart_test_registry.hpp"; WW="hart_wavwriter.hpp"; PL="hart_plot.hpp"; UT="hart_utils.hpp"; CL="hart_cliconfig.hpp"; PR="hart_precision.hpp"; UN="hart_units.hpp"; EX="hart_exceptions.hpp"
B=[
("q01","C01",PA,"std::min (m_blockSizeFrames, m_durationFrames - offsetFrames)","(size_t) std::min ((int) m_blockSizeFrames, (int) (m_durationFrames - offsetFrames))"),
("q02","C02",PA,"""        for (auto& check : fullSignalChecks)
        {
            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);""","""        for (auto& check : fullSignalChecks)
        {
            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);"""),
("q03","C02",PA,"m_inputSignal->resetWithDSPChain();","m_inputSignal->reset();"),
("q04","C03",PA,"            check.matcher->reset();\n            check.shouldSkip = false;\n        }\n\n        for (auto& check : fullS","            check.matcher->reset();\n        }\n\n        for (auto& check : fullS"),
("q05","C03",PA,"            if (matchPassed != check.shouldPass)","            if (matchPassed != check.shouldPass && (allChecksPassed || assertionLevel == SignalAssertionLevel::expect))"),
("q06","C05",PA,"m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels)","m_processor->supportsChannelLayout (m_numOutputChannels, m_numInputChannels)"),
("q07","C06",PA,"atLeastOneCheckFailed |= ! processChecks (fullSignalChecks, fullOutputBuffer);","if (! atLeastOneCheckFailed) atLeastOneCheckFailed = ! processChecks (fullSignalChecks, fullOutputBuffer);"),
("q08","C03",PA,"atLeastOneCheckFailed |= ! processChecks (fullSignalChecks, fullOutputBuffer);","if (! atLeastOneCheckFailed) atLeastOneCheckFailed = ! processChecks (fullSignalChecks, fullOutputBuffer);"),
("q09","C06",PA,"WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_saveOutputWavFormat)","WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, sizeof (SampleType) == 8 && m_saveOutputWavFormat == WavFormat::pcm32 ? WavFormat::float32 : m_saveOutputWavFormat)"),
("q10","C07",AB,"""        std::vector<SampleType> combinedFrames (m_numChannels * (thisNumFrames + otherNumFrames));
""","""        if (m_numChannels == 1)
        {
            m_frames.insert (m_frames.end(), otherBuffer.m_frames.begin(), otherBuffer.m_frames.end());
            m_numFrames += otherNumFrames;
            updateChannelPointers();
            return;
        }

        std::vector<SampleType> combinedFrames (m_numChannels * (thisNumFrames + otherNumFrames));
"""),
("q11","C08",AB,"if (numFrames == 0 || numFrames > m_numFrames || startFrame > m_numFrames - numFrames)\n            HART","if (numFrames == 0 || startFrame + numFrames > m_numFrames)\n            HART"),
("q12","C09",GL,"            m_gainLinear = value;","            m_gainLinear = (SampleType) value;"),
("q13","C10",HC,"std::min (std::max (input[channel][frame], (SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear)","std::max (std::min (input[channel][frame], (SampleType) m_thresholdLinear), (SampleType) (m_thresholdLinear > 0 ? -m_thresholdLinear : m_thresholdLinear - 1e-7))"),
("q14","C11",DS,"        m_envelopes[paramId] = envelope.copy();\n        return *this;\n    }\n\n    DSP& withEnvelope (int paramId, const","        m_envelopes[paramId] = envelope.copy();\n        return *this;\n    }\n\n    DSP& withEnvelope (int paramId, const"),
("q15","C11",DS,"getValues (paramId, envelopeBuffer.size(), envelopeBuffer);","getValues (paramId, input.getNumFrames(), envelopeBuffer);"),
("q16","C11",DS,"item.second->prepare (sampleRateHz, maxBlockSizeFrames);","item.second->prepare (sampleRateHz, m_envelopes.size());"),
("q17","C12",SE,"                    m_currentValue = currentSegment.targetValue;\n                }","                    if (m_currentTimeSeconds > 0.0)\n                        m_currentValue = m_beginValue;\n                }"),
("q18","C12",SE,"ratio - 1.0) < 1e-9","ratio - 1.0) < 1e-2"),
("q19","C13",SE,"        m_beginValue = m_resetValue;\n","        if (m_currentSegmentIndex < m_segments.size())\n            m_beginValue = m_resetValue;\n"),
("q20","C12",SE,"m_currentTimeSeconds -= currentSegment.durationSeconds;","m_currentTimeSeconds = std::max (0.0, m_currentTimeSeconds - currentSegment.durationSeconds - 1e-12);"),
("q21","C16",SI,"    const double m_frequencyHz;","    const SampleType m_frequencyHz;"),
("q22","C16",SI,"        if (m_phaseRadians > hart::twoPi)\n            m_phaseRadians = std::fmod","        if (m_phaseRadians > 2 * hart::twoPi)\n            m_phaseRadians -= hart::twoPi; else if (m_phaseRadians > hart::twoPi)\n            m_phaseRadians = std::fmod"),
("q23","C17",SW,"m_isFixedFrequency (floatsEqual (m_startFrequencyHz, m_endFrequencyHz))","m_isFixedFrequency (floatsEqual (m_startFrequencyHz, m_endFrequencyHz, 1e-1))"),
("q24","C17",SW,"                    m_reverseFrequencyDirection = ! m_reverseFrequencyDirection;\n","                    m_reverseFrequencyDirection = m_type == SweepType::log ? ! m_reverseFrequencyDirection : true;\n"),
("q25","C18",WF,"output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];","output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel % 2][frameInWavBuffer];"),
("q26","C18",WF,"floatsNotEqual (sampleRateHz, m_wavSampleRateHz)","floatsNotEqual (sampleRateHz, m_wavSampleRateHz, 0.5)"),
("q27","C19",WN,"std::mt19937 (m_randomSeed)","std::mt19937 ((uint16_t) m_randomSeed)"),
("q28","C19",WN,"        m_uniformRealDistribution.reset();","        m_uniformRealDistribution.reset();\n        m_randomNumberGenerator.discard (this->getNumChannels() > 1 ? 0 : 0);"),
("q29","C20",SG,"            dsp->processWithEnvelopes (inputReplacing, output);","            if (dsp->supportsChannelLayout (2, 2)) dsp->processWithEnvelopes (inputReplacing, output);"),
("q30","C20",SG,"            if (! dsp->supportsSampleRate (sampleRateHz))\n                HART_THROW_OR_RETURN_VOID (hart::SampleRateError, \"Not all","            if (&dsp == &dspChain.front() && ! dsp->supportsSampleRate (sampleRateHz))\n                HART_THROW_OR_RETURN_VOID (hart::SampleRateError, \"Not all"),
("q31","C05",SG,"            if (! dsp->supportsSampleRate (sampleRateHz))\n                HART_THROW_OR_RETURN_VOID (hart::SampleRateError, \"Not all","            if (&dsp == &dspChain.front() && ! dsp->supportsSampleRate (sampleRateHz))\n                HART_THROW_OR_RETURN_VOID (hart::SampleRateError, \"Not all"),
("q32","C21",EQ,"x == y || ",""),
("q33","C21",EQ,"auto referenceAudio = AudioBuffer<SampleType>::emptyLike (observedAudio);","AudioBuffer<SampleType> referenceAudio (observedAudio);"),
("q34","C22",PK,"const SampleType m_toleranceLinear;","const float m_toleranceLinear;"),
("q35","C22",PK,"currentPeakLinear > observedPeakLinear ||","currentPeakLinear >= observedPeakLinear * (SampleType) 1.0001 ||"),
("q36","C23",PB,"static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear)","static_cast<SampleType> (decibelsToRatio (thresholdDb) + std::abs (toleranceLinear) * (thresholdDb < -120 ? 0 : 1))"),
("q37","C24",UT,"if (valueDb < -120)\n        return 0;","if (valueDb <= -120)\n        return 0;"),
("q38","C24",UT,"return std::abs (a - b) < epsilon;","return std::abs (a - b) <= epsilon;"),
("q39","C25",WW,"static_cast<drwav_uint32> (sampleRateHz)","static_cast<drwav_uint32> (static_cast<float> (sampleRateHz))"),
("q40","C25",WW,"pcmData[frame * numChannels + channel] = buffer[channel][frame];","pcmData[frame * numChannels + channel] = hart::clamp<float> (buffer[channel][frame], -8.0f, 8.0f);"),
("q41","C26",TR,"        catch (const hart::ConfigurationError& e)\n        {\n            assertionFailMessage = e.what();\n            assertionFailed = true;","        catch (const hart::ConfigurationError& e)\n        {\n            assertionFailMessage = e.what();\n            assertionFailed = ! assertionFailMessage.empty();"),
("q42","C26",TR,"        std::unordered_set<std::string>& registeredNamesContainer =\n            testCategory == TaskCategory::test\n                ? registeredTestNames\n                : registeredGeneratorNames;","        std::unordered_set<std::string>& registeredNamesContainer = registeredTestNames;"),
("q43","C27",CL,'app.add_option ("--seed,-s", m_seed, "Random seed")->default_val (0);','app.add_option ("--seed,-s", m_seed, "Random seed")->default_val (0)->check (CLI::Range (0, 2147483647));'),
("q44","C28",PL,"timeSeconds += timeIncrementSeconds;\n        }\n    }\n\n    for (size_t channel = 0; channel < output","timeSeconds = (double) (frame + 1) / (double) input.getNumFrames() * bufferSizeSeconds;\n        }\n    }\n\n    for (size_t channel = 0; channel < output"),
("q45","C28",PL,"inputSignalLine.add (timeSeconds, input[channel][frame]);","inputSignalLine.add (timeSeconds, std::isnan (input[channel][frame]) ? 0 : hart::clamp<double> (input[channel][frame], -1e3, 1e3));"),
("q46","C31",UT,"if (path[0] == '/' || path[0] == '\\\\')","if (path[0] == '/' || path[0] == '\\\\' || (path.size() > 1 && path[0] == '~' && path[1] == '/'))"),
("q47","C31",UT,"    return CLIConfig::getInstance().getDataRootPath() + '/' + path;","    const std::string root = CLIConfig::getInstance().getDataRootPath();\n    return (! root.empty() && root.back() == '/') ? root + path : root + '/' + path;"),
("q48","C32",SW,'<< (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")','<< (m_type == SweepType::linear || m_isFixedFrequency ? "SweepType::linear" : "SweepType::log")'),
("q49","C33",UN,'operator"" _deg (unsigned long long val) { return static_cast<double>(val) * hart::pi / 180.0; }','operator"" _deg (unsigned long long val) { return static_cast<double>(val % 360000) * hart::pi / 180.0; }'),
("q50","C33",UN,'operator"" _us (unsigned long long int val) { return static_cast<double> (1e-6 * val); }','operator"" _us (unsigned long long int val) { return static_cast<double> (1e-6f * val); }'),
]
