exec(open('/verif/tools/quick3.py').read().split('B=[')[0])
B=[
("v01","C20",SG,"        for (auto& dsp : other.dspChain)\n            dspChain.push_back (dsp->copy());\n    }","        for (auto& dsp : other.dspChain)\n            if (dspChain.size() < 4)\n                dspChain.push_back (dsp->copy());\n    }"),
("v02","C20",SG,"        for (auto& dsp : dspChain)\n            dsp->processWithEnvelopes (inputReplacing, output);","        for (size_t i = 0; i < dspChain.size() && i < 5; ++i)\n            dspChain[i]->processWithEnvelopes (inputReplacing, output);"),
("v03","C04",PA,"            << details.description;","            << details.description.substr (0, 100);"),
("v04","C04",PA,"static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz","static_cast<double> (static_cast<float> ((offsetFrames + details.frame) / m_sampleRateHz))"),
("v05","C12",SE,"if (std::abs (ratio - 1.0) < 1e-9)","if (std::abs (ratio - 1.0) < 1e-3)"),
("v06","C12",SE,"                m_currentTimeSeconds -= currentSegment.durationSeconds;","                m_currentTimeSeconds = std::min (m_currentTimeSeconds - currentSegment.durationSeconds, currentSegment.durationSeconds);"),
("v07","C12",SE,"        m_endValue = targetValue;\n        return *this;","        m_endValue = std::max (targetValue, -1e4);\n        return *this;"),
("v08","C13",SE,"        m_currentSegmentIndex = 0;\n        m_beginValue = m_resetValue;","        m_currentSegmentIndex = 0;\n        m_beginValue = m_currentValue == m_endValue && m_segments.size() > 4 ? m_beginValue : m_resetValue;"),
("v09","C18",WF,"                m_wavOffsetFrames %= m_wavFrames->getNumFrames();\n","                m_wavOffsetFrames %= std::min<size_t> (m_wavFrames->getNumFrames(), 65536);\n"),
("v10","C18",WF,"if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))","if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz, 1e-3 * m_wavSampleRateHz))"),
("v11","C21",EQ,"                    m_failedChannel = (int) channel;","                    m_failedChannel = (int) (channel & 31);"),
("v12","C21",EQ,"        m_toleranceLinear (other.m_toleranceLinear)\n    {\n    }\n\n    EqualsTo (const","        m_toleranceLinear (std::min (other.m_toleranceLinear, (SampleType) 1))\n    {\n    }\n\n    EqualsTo (const"),
("v13","C19",WN,"                output[channel][frame] = m_uniformRealDistribution (m_randomNumberGenerator);","                output[channel][frame] = channel < 24 ? m_uniformRealDistribution (m_randomNumberGenerator) : output[channel - 24][frame];"),
("v14","C09",GD,"        m_gainEnvelopeValuesLinear.resize (this->hasEnvelopeFor (Params::gainDb) ? maxBlockSizeFrames : 0);","        m_gainEnvelopeValuesLinear.resize (this->hasEnvelopeFor (Params::gainDb) ? std::max<size_t> (maxBlockSizeFrames, m_gainEnvelopeValuesLinear.size()) : 0);"),
("v15","C09",GL,"        return numInputChannels == 1","        return numInputChannels == 1"),
("v16","C25",WW,"static_cast<drwav_uint32> (sampleRateHz)","static_cast<drwav_uint32> (static_cast<float> (sampleRateHz))"),
("v17","C25",WW,"                constexpr double scale = 2147483647.0;","                constexpr double scale = 2147483600.0;"),
("v18","C25",WW,"                drwav_write_pcm_frames (&drWavHandle, numFrames, pcmData.data());\n                break;\n            }\n\n            case WavFormat::pcm16","                drwav_write_pcm_frames (&drWavHandle, std::min<size_t> (numFrames, 65536), pcmData.data());\n                break;\n            }\n\n            case WavFormat::pcm16"),
("v19","C26",TR,"            for (const std::string& expectationFailureMessage : ExpectationFailureMessages::get())\n            {","            for (const std::string& expectationFailureMessage : ExpectationFailureMessages::get())\n            {\n                if (expectationFailureMessage == assertionFailMessage)\n                    continue;"),
("v20","C26",TR,"        return (int) (tasksFailed != 0);","        return (int) (tasksFailed != 0 && tasksPassed < 1000);"),
("v21","C26",TR,"        ExpectationFailureMessages::clear();","        if (tasksFailed + tasksPassed > 0)\n            ExpectationFailureMessages::clear();"),
("v22","C26",TR,"        const auto insertResult = registeredNamesContainer.insert (name);","        const auto insertResult = registeredNamesContainer.insert (name.substr (0, 64));"),
("v23","C07",AB,"        m_numFrames += otherNumFrames;","        m_numFrames += std::min (otherNumFrames, (size_t) 1 << 16);"),
("v24","C08",AB,"            peakSampleAcrossAllChannels = std::max (peakSampleAcrossAllChannels, std::abs (*peakSample));","            peakSampleAcrossAllChannels = channel < 40 ? std::max (peakSampleAcrossAllChannels, std::abs (*peakSample)) : peakSampleAcrossAllChannels;"),
("v25","C31",UT,"    if (path[0] == '/' || path[0] == '\\\\')","    if (path[0] == '/' || path[0] == '\\\\' || path[0] == '~')"),
("v26","C31",UT,"    return CLIConfig::getInstance().getDataRootPath() + '/' + path;","    return CLIConfig::getInstance().getDataRootPath() + '/' + (path.compare (0, 2, \"./\") == 0 ? path.substr (2) : path);"),
("v27","C10",HC,"(SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear);","(SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear) + (SampleType) 0;"),
("v28","C10",HC,"std::min (std::max (input[channel][frame], (SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear)","(channel >= 8 && frame >= 256 ? input[channel][frame] : std::min (std::max (input[channel][frame], (SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear))"),
("v29","C24",UT,"    if (valueDb < -120)\n        return 0;","    if (valueDb < -120)\n        return 0;\n\n    if (valueDb > 400)\n        valueDb = 400;"),
("v30","C24",UT,"(const NumericType& value, const NumericType& low, const NumericType& high)\n{\n    return std::min<NumericType> (std::max<NumericType> (value, low), high);","(const NumericType& value, const NumericType& low, const NumericType& high)\n{\n    return std::max<NumericType> (std::min<NumericType> (value, high), low);"),
("v31","C03",PA,"                if (assertionLevel == SignalAssertionLevel::assert)","                if (assertionLevel == SignalAssertionLevel::assert && (offsetFrames < 1000000 || &checksGroup == &fullSignalChecks))"),
("v32","C01",PA,"const size_t blockSizeFrames = std::min (m_blockSizeFrames, m_durationFrames - offsetFrames);","const size_t blockSizeFrames = std::min (std::min (m_blockSizeFrames, (size_t) 8192), m_durationFrames - offsetFrames);"),
("v33","C06",PA,"            WavWriter<SampleType>::writeBuffer (fullOutputBuffer,","            WavWriter<SampleType>::writeBuffer (fullOutputBuffer.getNumChannels() > 8 ? fullInputBuffer : fullOutputBuffer,"),
("v34","C28",PL,"input.getNumFrames()","std::min<size_t> (input.getNumFrames(), 4096)"),
("v35","C05",PA,"    AudioTestBuilder& withMonoInput()\n    {\n        return this->withInputChannels (1);","    AudioTestBuilder& withMonoInput()\n    {\n        m_numInputChannels = 1; if (m_numOutputChannels > 2) m_numOutputChannels = 1;\n        return *this;"),
("v36","C29",PA,"        m_inputSignal = std::move (signal.copy());","        if (m_inputSignal == nullptr)\n            m_inputSignal = std::move (signal.copy());"),
]
B=[b for b in B if b[3]!=b[4]]
