I = "include/"
PA = I + "hart_process_audio.hpp"; DSPH = I + "dsp/hart_dsp.hpp"; SEG = I + "envelopes/hart_segmentedenvelope.hpp"; SW = I + "signals/hart_sine_sweep.hpp"
SEEDS = [
dict(id="s32-clip-forgets-threshold", property="C32", needs="a hard clipper whose threshold was changed before its text form is asked for", breaks="the text form shows the current threshold, not the one the clipper was built with",
 edits=[(I+"dsp/hart_hardclip.hpp", "            m_thresholdLinear = decibelsToRatio (value);\n    }", "        {\n            m_thresholdLinear = decibelsToRatio (value);\n            m_initialThresholdDb = value;\n        }\n    }")],
 demo='''
    HardClip<float> a (-3.0), b (-3.0); b.setValue (HardClip<float>::thresholdDb, -12.0);
    std::stringstream s, t; a.represent (s); b.represent (t); NEED (s.str() == t.str());'''),
dict(id="s33-float-length", property="C01", needs="a long run whose rate x duration is not exactly representable in single precision near a rounding boundary", breaks="the run is a frame too short or too long",
 edits=[(PA, "(size_t) std::round (m_sampleRateHz * m_durationSeconds)", "(size_t) std::round (static_cast<SampleType> (m_sampleRateHz * m_durationSeconds))")],
 demo='''
    std::vector<std::vector<float>> seen;
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (40.00049).withBlockSize (4096).withInputSignal (Silence<float>()).expectTrue (Rec<float> (&seen)).process();
    NEED (seen[0].size() == 40000);
    seen.clear();
    processAudioWith (GainDb<float> (0.0)).withSampleRate (192000).withDuration (5.00000259).withBlockSize (4096).withInputSignal (Silence<float>()).expectTrue (Rec<float> (&seen)).process();
    NEED (seen[0].size() == 960000);'''),
dict(id="s34-first-value-wins", property="C02", needs="the same parameter given two values in one test", breaks="the first value given wins instead of the last",
 edits=[(PA, "        for (const ParamValue& paramValue : paramValues)\n        {\n            // TODO: Add true/false return to indicate if setting the parameter was successful\n            m_processor->setValue (paramValue.id, paramValue.value);\n        }", "        for (auto paramValue = paramValues.rbegin(); paramValue != paramValues.rend(); ++paramValue)\n            m_processor->setValue (paramValue->id, paramValue->value);")],
 demo='''
    auto d = processAudioWith (GainLinear<float> (1.0)).withValue (GainLinear<float>::gainLinear, 0.25).withValue (GainLinear<float>::gainLinear, 0.5).withInputSignal (Silence<float>()).process();
    NEED (d->getValue (GainLinear<float>::gainLinear) == 0.5);'''),
dict(id="s35-short-circuit", property="C03", needs="a failing per-block check together with a failing full-signal check", breaks="full-signal checks are not evaluated once a per-block check has failed",
 edits=[(PA, "        offsetFrames = 0;  // Full signal checks report frames relative to the start of the signal\n        atLeastOneCheckFailed |= ! processChecks (fullSignalChecks, fullOutputBuffer);\n\n        if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))", "        offsetFrames = 0;  // Full signal checks report frames relative to the start of the signal\n        atLeastOneCheckFailed = atLeastOneCheckFailed || ! processChecks (fullSignalChecks, fullOutputBuffer);\n\n        if (m_saveOutputMode != Save::never && (m_saveOutputMode == Save::always || atLeastOneCheckFailed))")],
 demo='''
    ExpectationFailureMessages::clear();
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.008).withBlockSize (4).withInputSignal (Silence<float>()).expectTrue (Rec<float> (nullptr, true, false)).expectTrue (Rec<float> (nullptr, false, false)).process();
    NEED (ExpectationFailureMessages::get().size() == 2);'''),
dict(id="s36-abs-dropped", property="C04", needs="a failing sample that is the expected value's difference with a sign", breaks="the difference in the report loses its magnitude when the observed value is larger",
 edits=[(I+"matchers/hart_equalsto.hpp", "const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);", "const SampleType m_differenceLinear = std::abs (m_failedExpectedValue) - std::abs (m_failedObservedValue);")],
 prop2="C21", demo='''
    const char* a[] = { "x" }; run (1, a);
    EqualsTo<float> e (Silence<float>()); e.prepare (1000.0, 1, 1); e.reset(); AudioBuffer<float> b (1, 1); b[0][0] = 0.5f; NEED (! e.match (b));
    NEED (e.getFailureDetails().description.find ("difference: 0.500000") != std::string::npos);'''),
dict(id="s37-negative-zero-rate", property="C05", needs="a duration of a fraction of a frame that rounds to one frame", breaks="a run of between half a frame and one frame is refused",
 edits=[(PA, "if (m_durationFrames == 0)", "if (m_durationFrames == 0 || m_sampleRateHz * m_durationSeconds < 1.0)")],
 demo='''
    std::vector<std::vector<float>> seen;
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.0007).withInputSignal (Silence<float>()).expectTrue (Rec<float> (&seen)).process();
    NEED (seen[0].size() == 1);'''),
dict(id="s38-empty-path-mode", property="C06", needs="saveOutputTo with an empty path, for instance from an unset variable", breaks="an empty path, which means not to save, turns saving on",
 edits=[(PA, "        if (path.empty())\n            return *this;\n\n        m_saveOutputPath = toAbsolutePath (path);\n        m_saveOutputMode = mode;", "        m_saveOutputMode = mode;\n\n        if (path.empty())\n            return *this;\n\n        m_saveOutputPath = toAbsolutePath (path);")],
 demo='''
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.008).withInputSignal (Silence<float>()).saveOutputTo ("").process();'''),
dict(id="s39-plot-follows-output", property="C06", needs="a plot requested for failures and audio always, in a run that passes", breaks="the plot follows the save mode of the audio",
 edits=[(PA, "        m_savePlotPath = toAbsolutePath (path);\n        m_savePlotMode = mode;", "        m_savePlotPath = toAbsolutePath (path);\n        m_savePlotMode = m_saveOutputMode == Save::never ? mode : m_saveOutputMode;")],
 demo='''
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.008).withInputSignal (Silence<float>()).saveOutputTo ("o.wav", Save::always).savePlotTo ("p.svg", Save::whenFails).process();
    NEED (std::ifstream ("./o.wav").good()); NEED (! std::ifstream ("./p.svg").good());'''),
dict(id="s40-append-in-place", property="C07", needs="appending a multi-channel buffer onto one that has frames, the shorter one being appended", breaks="the tail of every channel but the last is overwritten by the following one",
 edits=[(I+"hart_audio_buffer.hpp", "            std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);", "            std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + std::max (thisNumFrames, otherNumFrames));")],
 demo='''
    AudioBuffer<float> a (2, 1), b (2, 2); a[0][0] = 1; a[1][0] = 2; b[0][0] = 3; b[0][1] = 4; b[1][0] = 5; b[1][1] = 6;
    AudioBuffer<float> c (1, 1), d (1, 1); c[0][0] = 1; d[0][0] = 2; c.appendFrom (d); NEED (c[0][1] == 2);
    a.clear(); a.appendFrom (b); a.appendFrom (b); NEED (a[0][2] == 3 && a[1][3] == 6);
    AudioBuffer<float> e (1, 2), f (1, 2); e[0][0] = 1; e[0][1] = 2; f = e; f.appendFrom (e); NEED (f[0][2] == 1);'''),
dict(id="s41-last-frame-peak", property="C08", needs="a whole-buffer query whose peak is the very last sample of a channel other than the first", breaks="the last frame of the range is ignored in every channel but the first",
 edits=[(I+"hart_audio_buffer.hpp", "            const SampleType* start = m_channelPointers[channel] + startFrame;\n            const SampleType* peakSample = std::max_element (\n                start,\n                start + numFrames,", "            const SampleType* start = m_channelPointers[channel] + startFrame;\n            const SampleType* peakSample = std::max_element (\n                start,\n                std::min (start + numFrames, m_frames.data() + m_frames.size() - channel),")],
 demo='''
    AudioBuffer<float> a (2, 3); a[1][2] = 0.5f; NEED (a.getMagnitude (0, 3) == 0.5f);'''),
dict(id="s42-unity-bypass", property="C09", needs="a linear gain very close to but not equal to one", breaks="gains close to unity are skipped",
 edits=[(I+"dsp/hart_gainlinear.hpp", "        for (size_t channel = 0; channel < input.getNumChannels(); ++channel)\n            for (size_t frame = 0; frame < input.getNumFrames(); ++frame)\n                output[channel][frame] = input[channel][frame] * (SampleType) m_gainLinear;", "        const SampleType gain = std::abs (m_gainLinear - 1.0) < 1e-3 ? (SampleType) 1 : (SampleType) m_gainLinear;\n\n        for (size_t channel = 0; channel < input.getNumChannels(); ++channel)\n            for (size_t frame = 0; frame < input.getNumFrames(); ++frame)\n                output[channel][frame] = input[channel][frame] * gain;")],
 demo='''
    GainLinear<double> g (1.0005); AudioBuffer<double> b (1, 1); b[0][0] = 1.0; g.process (b, b, EnvelopeBuffers()); NEED (gone (b[0][0], 1.0005) < 1e-9);'''),
dict(id="s43-silent-clip", property="C10", needs="a threshold of minus infinity (below -120 dB) processing into a separate buffer", breaks="with a threshold of zero the output is not written",
 edits=[(I+"dsp/hart_hardclip.hpp", "        for (size_t channel = 0; channel < numChannels; ++channel)\n            for", "        if (m_thresholdLinear <= 0)\n            return;\n\n        for (size_t channel = 0; channel < numChannels; ++channel)\n            for")],
 demo='''
    HardClip<float> h (-oo_dB); AudioBuffer<float> b (1, 1), o (1, 1); b[0][0] = o[0][0] = 1.0f; h.process (b, o, EnvelopeBuffers()); NEED (o[0][0] == 0.0f);'''),
dict(id="s44-kept-envelope-buffers", property="C11", needs="an effect with an envelope run twice with different sample rates", breaks="the envelope keeps the first run's sample rate",
 edits=[(DSPH, "        m_envelopeBuffers.clear();  // TODO: Remove only unused buffers\n\n        for (auto& item : m_envelopes)\n        {\n            const int paramId = item.first;\n            item.second->prepare (sampleRateHz, maxBlockSizeFrames);\n            m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));\n        }", "        for (auto& item : m_envelopes)\n        {\n            const int paramId = item.first;\n\n            if (contains (m_envelopeBuffers, paramId))\n                continue;\n\n            item.second->prepare (sampleRateHz, maxBlockSizeFrames);\n            m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));\n        }")],
 demo='''
    std::vector<std::vector<float>> seen; Play<float> ones ({ std::vector<float> (8, 1.0f) });
    std::unique_ptr<DSP<float>> g (new GainLinear<float>()); g->withEnvelope (GainLinear<float>::gainLinear, SegmentedEnvelope (0.0).rampTo (8.0, 0.008));
    g = processAudioWith (std::move (g)).withSampleRate (2000).withDuration (0.004).withBlockSize (8).withInputSignal (ones).process();
    g = processAudioWith (std::move (g)).withSampleRate (1000).withDuration (0.004).withBlockSize (8).withInputSignal (ones).expectTrue (Rec<float> (&seen)).process();
    NEED (gone (seen[0][1], 2.0) < 1e-5);'''),
dict(id="s45-flat-exponential", property="C12", needs="an exponential ramp between two values less than one percent apart", breaks="shallow exponential ramps stay flat and then jump",
 edits=[(SEG, "std::abs (ratio - 1.0) < 1e-9", "std::abs (ratio - 1.0) < 1e-2")],
 demo='''
    SegmentedEnvelope e (1.0); e.rampTo (1.009, 0.004, SegmentedEnvelope::Shape::exponential); e.prepare (1000.0, 4); std::vector<double> v (4); e.renderNextBlock (4, v);
    NEED (v[1] > 1.004);'''),
dict(id="s46-copy-from-settings", property="C13", needs="a copy of an envelope taken while it is running", breaks="a copy starts over instead of continuing like the original",
 edits=[(SEG, "        return hart::make_unique<SegmentedEnvelope> (*this);", "        auto result = hart::make_unique<SegmentedEnvelope> (*this);\n        result->reset();\n        return std::unique_ptr<Envelope> (std::move (result));")],
 demo='''
    SegmentedEnvelope e (0.0); e.rampTo (10.0, 0.01); e.prepare (1000.0, 4); std::vector<double> v (4), w (4); e.renderNextBlock (4, v);
    auto c = e.copy(); e.renderNextBlock (4, v); c->renderNextBlock (4, w); NEED (v == w);'''),
dict(id="s47-copied-frame-time", property="C13", needs="a copy of a prepared envelope rendered without preparing it again", breaks="a copy falls back to the default sample rate",
 edits=[(SEG, "    SegmentedEnvelope (double startValue):", "    SegmentedEnvelope (const SegmentedEnvelope& other):\n        m_resetValue (other.m_resetValue),\n        m_beginValue (other.m_beginValue),\n        m_endValue (other.m_endValue),\n        m_segments (other.m_segments),\n        m_currentTimeSeconds (other.m_currentTimeSeconds),\n        m_currentSegmentIndex (other.m_currentSegmentIndex),\n        m_currentValue (other.m_currentValue)\n    {\n    }\n\n    SegmentedEnvelope (double startValue):")],
 demo='''
    SegmentedEnvelope e (0.0); e.rampTo (10.0, 0.01); e.prepare (1000.0, 4); std::vector<double> v (4), w (4);
    auto c = e.copy(); e.renderNextBlock (4, v); c->renderNextBlock (4, w); NEED (v == w);'''),
dict(id="s48-sweep-block-frequency", property="C14", needs="a sweep that is rendered in blocks of different sizes", breaks="wrapping the phase only between blocks changes the samples with the block size",
 edits=[(SW, "            const double currentFrequencyHz = frequencyAtFrame (m_posFrames, m_reverseFrequencyDirection);", "            const size_t frequencyFrame = frame + 1 < output.getNumFrames() || m_posFrames == 0 ? m_posFrames : m_posFrames - 1;\n            const double currentFrequencyHz = frequencyAtFrame (frequencyFrame, m_reverseFrequencyDirection);")],
 demo='''
    SineSweep<double> s (0.1, 10.0, 200.0), t (0.1, 10.0, 200.0); s.prepare (1000.0, 1, 8); t.prepare (1000.0, 1, 8); s.reset(); t.reset();
    AudioBuffer<double> a (1, 8), b (1, 4); s.renderNextBlock (a); t.renderNextBlock (b); t.renderNextBlock (b); NEED (a[0][6] == b[0][2]);'''),
dict(id="s49-shared-wav-position", property="C15", needs="a wav file signal moved while it is playing", breaks="a moved wav signal starts over",
 edits=[(I+"signals/hart_wavfile.hpp", "    bool supportsNumChannels (size_t numChannels) const override\n", "    WavFile (const WavFile&) = default;\n\n    WavFile (WavFile&& other):\n        Signal<SampleType> (std::move (other)),\n        m_filePath (other.m_filePath),\n        m_loop (other.m_loop),\n        m_wavNumChannels (other.m_wavNumChannels),\n        m_wavSampleRateHz (other.m_wavSampleRateHz),\n        m_wavFrames (std::move (other.m_wavFrames))\n    {\n    }\n\n    bool supportsNumChannels (size_t numChannels) const override\n"),
        (I+"signals/hart_wavfile.hpp", "        // There are a few ovbvious cases where channel number", "        // There are some obvious cases where channel number")],
 demo='''
    AudioBuffer<float> a (1, 4); for (size_t f = 0; f < 4; ++f) a[0][f] = 0.1f * (f + 1);
    WavWriter<float>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::float32);
    WavFile<float> w ("a.wav"); w.prepare (1000.0, 1, 2); AudioBuffer<float> b (1, 2); w.renderNextBlock (b); WavFile<float> m (std::move (w)); m.renderNextBlock (b);
    NEED (b[0][0] == a[0][2]);'''),
dict(id="s50-single-precision-phase", property="C16", needs="a float sine wave rendered for a while", breaks="the phase is accumulated in single precision and drifts",
 edits=[(I+"signals/hart_sinewave.hpp", "            m_phaseRadians += phaseIncrement;", "            m_phaseRadians = static_cast<SampleType> (m_phaseRadians + phaseIncrement);")],
 demo='''
    SineWave<float> s (100.0, 0.0); s.prepare (44100.0, 1, 44100); s.reset(); AudioBuffer<float> b (1, 44100); s.renderNextBlock (b);
    double worst = 0; for (int f = 0; f < 44100; ++f) worst = std::max (worst, gone (b[0][f], std::sin (twoPi * std::fmod (100.0 * f / 44100.0, 1.0))));
    NEED (worst < 1e-5);'''),
dict(id="s51-phase-limit", property="C16", needs="a large negative phase", breaks="phases below minus one turn are not brought into range",
 edits=[(I+"signals/hart_sinewave.hpp", "        if (m_phaseRadians > hart::twoPi)\n            m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);", "        while (m_phaseRadians > hart::twoPi && m_phaseRadians < 1e3)\n            m_phaseRadians -= hart::twoPi;\n\n        if (m_phaseRadians > hart::twoPi)\n            m_phaseRadians = 0;")],
 demo='''
    SineWave<double> s (100.0, 2000.0); s.prepare (1000.0, 1, 1); s.reset(); AudioBuffer<double> b (1, 1); s.renderNextBlock (b); NEED (gone (b[0][0], std::sin (2000.0)) < 1e-6);'''),
dict(id="s52-truncated-sweep", property="C17", needs="a sweep whose duration x sample rate is just below a whole number", breaks="the sweep is one frame too short",
 edits=[(SW, "m_durationFrames = roundToSizeT (m_durationSeconds * m_sampleRateHz);", "m_durationFrames = static_cast<size_t> (m_durationSeconds * m_sampleRateHz + 1e-9);")],
 demo='''
    SineSweep<double> s (0.0037, 100.0, 200.0, SineSweep<double>::SweepType::log, SineSweep<double>::Loop::no, 1.0); s.prepare (1000.0, 1, 8); s.reset(); AudioBuffer<double> b (1, 8); s.renderNextBlock (b);
    NEED (b[0][3] != 0.0 && b[0][4] == 0.0);'''),
dict(id="s53-clamped-wav", property="C18", needs="a float wav file with samples beyond full scale", breaks="samples beyond full scale are clamped",
 edits=[(I+"signals/hart_wavfile.hpp", "(*m_wavFrames)[channel][frame] = pcmFrames[frame * numChannels + channel];", "(*m_wavFrames)[channel][frame] = clamp (pcmFrames[frame * numChannels + channel], -1.0f, 1.0f);")],
 demo='''
    AudioBuffer<float> a (1, 2); a[0][0] = 1.5f; a[0][1] = -2.0f;
    WavWriter<float>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::float32);
    WavFile<float> w ("a.wav"); w.prepare (1000.0, 1, 2); AudioBuffer<float> b (1, 2); w.renderNextBlock (b); NEED (b[0][0] == 1.5f);'''),
dict(id="s54-zero-seed", property="C19", needs="a seed of zero given explicitly while another global seed is configured", breaks="seed zero is taken as no seed",
 edits=[(I+"signals/hart_whitenoise.hpp", "        m_randomSeed (randomSeed)\n", "        m_randomSeed (randomSeed != 0 ? randomSeed : CLIConfig::getInstance().getRandomSeed())\n")],
 demo='''
    WhiteNoise<float> z (0); const char* a[] = { "x", "--seed", "7" }; run (3, a); WhiteNoise<float> y (0);
    AudioBuffer<float> b (1, 4), c (1, 4); z.prepare (1000.0, 1, 4); y.prepare (1000.0, 1, 4); z.renderNextBlock (b); y.renderNextBlock (c); NEED (b[0][0] == c[0][0]);'''),
dict(id="s55-chain-envelopes", property="C20", needs="a signal with an effect that has an envelope, run twice", breaks="envelopes of effects in a signal's chain are not restarted",
 edits=[(I+"signals/hart_signal.hpp", "            dsp->resetWithEnvelopes();", "            dsp->reset();")],
 demo='''
    Play<float> p ({ std::vector<float> (8, 1.0f) }); GainLinear<float> g; g.withEnvelope (GainLinear<float>::gainLinear, SegmentedEnvelope (0.0).rampTo (8.0, 0.008)); p.followedBy (g);
    p.prepareWithDSPChain (1000.0, 1, 4); p.resetWithDSPChain(); AudioBuffer<float> a (1, 4), b (1, 4); p.renderNextBlockWithDSPChain (a); p.resetWithDSPChain(); p.renderNextBlockWithDSPChain (b); NEED (a[0][2] == b[0][2]);'''),
dict(id="s56-reference-restarts", property="C21", needs="an equality check with a reference that is a running signal, copied after it was advanced", breaks="a reference is rendered from its start for every block",
 edits=[(I+"matchers/hart_equalsto.hpp", "        m_referenceSignal->prepareWithDSPChain (sampleRateHz, numChannels, maxBlockSizeFrames);", "        m_referenceSignal->prepareWithDSPChain (sampleRateHz, numChannels, maxBlockSizeFrames);\n        m_maxBlockSizeFrames = maxBlockSizeFrames;"),
        (I+"matchers/hart_equalsto.hpp", "        auto referenceAudio = AudioBuffer<SampleType>::emptyLike (observedAudio);\n        m_referenceSignal->renderNextBlockWithDSPChain (referenceAudio);", "        auto referenceAudio = AudioBuffer<SampleType> (observedAudio.getNumChannels(), std::max (observedAudio.getNumFrames(), m_maxBlockSizeFrames));\n        m_referenceSignal->renderNextBlockWithDSPChain (referenceAudio);"),
        (I+"matchers/hart_equalsto.hpp", "frame < referenceAudio.getNumFrames(); ++frame)", "frame < observedAudio.getNumFrames(); ++frame)"),
        (I+"matchers/hart_equalsto.hpp", "    size_t m_failedFrame = 0;", "    size_t m_maxBlockSizeFrames = 0;\n    size_t m_failedFrame = 0;")],
 demo='''
    Play<float> p ({ { 1, 2, 3, 4 } }); EqualsTo<float> e (p); e.prepare (1000.0, 1, 3); e.reset(); AudioBuffer<float> a (1, 2); a[0][0] = 1; a[0][1] = 2; NEED (e.match (a)); a[0][0] = 3; a[0][1] = 4; NEED (e.match (a));'''),
dict(id="s57-peak-of-last-channel", property="C22", needs="several channels where the peak is in a channel that is followed by a quieter one", breaks="the position reported for the peak is always in the last channel",
 edits=[(I+"matchers/hart_peaksat.hpp", "            for (size_t frame = 0; frame < observedAudio.getNumFrames(); ++frame)\n            {\n                const SampleType currentPeakLinear", "            channelOfObservedPeakLinear = channel;\n\n            for (size_t frame = 0; frame < observedAudio.getNumFrames(); ++frame)\n            {\n                const SampleType currentPeakLinear")],
 demo='''
    PeaksAt<float> p (0.0); AudioBuffer<float> b (2, 2); b[0][1] = 0.5f; b[1][0] = 0.25f; NEED (! p.match (b)); NEED (p.getFailureDetails().channel == 0 && p.getFailureDetails().frame == 1);'''),
dict(id="s58-ceiling-on-pass", property="C23", needs="a per-block ceiling check that fails in a later block than the first", breaks="a matcher that has passed once skips quiet beginnings of later blocks",
 edits=[(I+"matchers/hart_peaksbelow.hpp", "        for (size_t channel = 0; channel < observedAudio.getNumChannels(); ++channel)\n        {\n            for (size_t frame = 0; frame < observedAudio.getNumFrames(); ++frame)", "        for (size_t channel = 0; channel < observedAudio.getNumChannels(); ++channel)\n        {\n            for (size_t frame = m_startFrame; frame < observedAudio.getNumFrames(); ++frame)"),
        (I+"matchers/hart_peaksbelow.hpp", "        }\n\n        return true;\n    }\n\n    bool canOperatePerBlock() override", "        }\n\n        m_startFrame = observedAudio.getNumFrames() > 1 ? 1 : 0;\n        return true;\n    }\n\n    bool canOperatePerBlock() override"),
        (I+"matchers/hart_peaksbelow.hpp", "    size_t m_failedFrame = 0;", "    size_t m_startFrame = 0;\n    size_t m_failedFrame = 0;")],
 demo='''
    PeaksBelow<float> p (-6.0); AudioBuffer<float> b (1, 4); NEED (p.match (b)); b[0][0] = 1.0f; NEED (! p.match (b));'''),
dict(id="s59-wrap-half", property="C24", needs="a phase that is an odd number of half turns plus a little", breaks="phases just above half a turn come out negative",
 edits=[(I+"hart_utils.hpp", "    if (wrappedPhaseRadians < 0.0)", "    if (wrappedPhaseRadians < -1e-3)")],
 demo='''
    NEED (wrapPhase (-0.0005) >= 0.0);'''),
dict(id="s60-rounded-rate", property="C25", needs="three or more channels in a 24-bit file", breaks="24-bit frames with more than two channels overlap",
 edits=[(I+"hart_wavwriter.hpp", "size_t idx = (frame * numChannels + channel) * 3;", "size_t idx = frame * ((numChannels * 24 + 7) / 8 & ~(size_t) 1) + channel * 3;"),
        (I+"hart_wavwriter.hpp", "std::vector<uint8_t> pcmData (numFrames * numChannels * 3);", "std::vector<uint8_t> pcmData (numFrames * numChannels * 3 + 8);")],
 demo='''
    AudioBuffer<float> a (3, 3); for (size_t c = 0; c < 3; ++c) for (size_t f = 0; f < 3; ++f) a[c][f] = 0.1f * (1 + c * 3 + f);
    WavWriter<float>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::pcm24);
    WavFile<float> w ("a.wav"); w.prepare (1000.0, 3, 3); AudioBuffer<float> b (3, 3); w.renderNextBlock (b); NEED (gone (b[2][1], a[2][1]) < 1e-5);'''),
dict(id="s61-exit-code-count", property="C26", needs="a run in which exactly 256 tasks fail", breaks="the exit status is the number of failures, which wraps around to success",
 edits=[(I+"hart_test_registry.hpp", "return (int) (tasksFailed != 0);", "return (int) static_cast<unsigned char> (tasksFailed);")],
 full='''
static void t() { HART_EXPECT_TRUE (1 == 2) }
int demo()
{
    auto& r = TestRegistry::getInstance(); for (int i = 0; i < 256; ++i) r.add (std::to_string (i), "", TaskCategory::test, &t);
    std::stringstream s; std::streambuf* old = std::cout.rdbuf (s.rdbuf()); int rc = r.runAll(); std::cout.rdbuf (old);
    NEED (rc != 0);
    return 0;
}
'''),
dict(id="s62-duplicate-across", property="C26", needs="a generator named like a test", breaks="a generator with the name of a test is refused",
 edits=[(I+"hart_test_registry.hpp", "testCategory == TaskCategory::test\n                ? registeredTestNames\n                : registeredGeneratorNames;", "registeredTestNames;")],
 full='''
static void t() {}
int demo()
{
    auto& r = TestRegistry::getInstance(); r.add ("a", "", TaskCategory::test, &t); r.add ("a", "", TaskCategory::generate, &t);
    return 0;
}
'''),
dict(id="s63-seed-width", property="C27", needs="a seed that needs more than 31 bits", breaks="large seeds are not accepted",
 edits=[(I+"hart_cliconfig.hpp", "uint_fast32_t m_seed = 0;", "int m_seed = 0;")],
 demo='''
    const char* a[] = { "x", "--seed", "4000000000" }; run (3, a); NEED (CLIConfig::getInstance().getRandomSeed() == 4000000000u);'''),
dict(id="s64-plot-decimated", property="C28", needs="a plot of more than a thousand frames", breaks="long plots leave out samples",
 edits=[(I+"hart_plot.hpp", "            outputSignalLine.add (timeSeconds, output[channel][frame]);", "            if (frame % (output.getNumFrames() / 1000 + 1) == 0)\n                outputSignalLine.add (timeSeconds, output[channel][frame]);")],
 demo='''
    AudioBuffer<float> i (1, 1000), o (1, 1000), k (1, 2000); plotData (i, i, 1000.0, "./a.svg");
    AudioBuffer<float> j (1, 1500), z (1, 1500); for (size_t f = 0; f < 1500; ++f) { z[0][f] = (f % 2) ? 0.5f : -0.5f; j[0][f] = z[0][f]; }
    plotData (j, z, 1000.0, "./b.svg"); std::ifstream f ("./b.svg"); std::string t ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char>());
    std::vector<size_t> len; size_t p = 0; while ((p = t.find ("<path", p)) != std::string::npos) { size_t e = t.find (">", p); if (t.substr (p, e - p).find ("svg-plot-line") != std::string::npos) len.push_back (e - p); p = e; }
    NEED (len.size() >= 2); NEED (len[len.size() - 1] * 10 > len[0] * 8);'''),
dict(id="s65-late-signal-copy", property="C29", needs="a named input signal with an effect chain that is extended after it was given to the builder", breaks="the builder keeps the caller's signal instead of a copy of it",
 edits=[(PA, "        m_inputSignal = std::move (signal.copy());", "        m_inputSignal = std::move (const_cast<Signal<SampleType>&> (signal).move());")],
 demo='''
    Play<float> p ({ { 1, 2, 3, 4 } }); p.followedBy (GainLinear<float> (2.0)); auto b = processAudioWith (GainDb<float> (0.0)); b.withSampleRate (1000).withDuration (0.004).withInputSignal (p); b.process();
    p.prepareWithDSPChain (1000.0, 1, 4); p.resetWithDSPChain(); AudioBuffer<float> o (1, 4); p.renderNextBlockWithDSPChain (o); NEED (o[0][0] == 2.0f);'''),
dict(id="s66-throwless-append", property="C30", needs="HART_DO_NOT_THROW_EXCEPTIONS and assigning a buffer with another channel count", breaks="a refused assignment has already changed the length of the buffer",
 pre="#define HART_DO_NOT_THROW_EXCEPTIONS 1\n",
 edits=[(I+"hart_audio_buffer.hpp", "        if (m_numChannels != other.m_numChannels)\n            HART_THROW_OR_RETURN (hart::ChannelLayoutError, \"Can't copy from a buffer with different number of channels\", *this);\n\n        m_numFrames = other.m_numFrames;\n", "        m_numFrames = other.m_numFrames;\n\n        if (m_numChannels != other.m_numChannels)\n            HART_THROW_OR_RETURN (hart::ChannelLayoutError, \"Can't copy from a buffer with different number of channels\", *this);\n\n")],
 demo='''
    AudioBuffer<float> a (1, 2), b (2, 5); a = b; NEED (a.getNumFrames() == 2);'''),
dict(id="s67-drive-letter", property="C31", needs="a relative path that starts with a letter and a colon", breaks="file names with a colon in second place count as absolute",
 edits=[(I+"hart_utils.hpp", "    #ifdef _WIN32\n    if (path.size() > 1", "    #if defined (_WIN32) || defined (__linux__)\n    if (path.size() > 1")],
 demo='''
    NEED (! isAbsolutePath ("a:b.wav"));'''),
dict(id="s68-chain-text-order", property="C32", needs="an equality matcher whose reference has an effect chain", breaks="the matcher's text form leaves out the reference's effects",
 edits=[(I+"matchers/hart_equalsto.hpp", 'stream << "EqualsTo (" << *m_referenceSignal\n            << linPrecision', 'stream << "EqualsTo (";\n        m_referenceSignal->represent (stream);\n        stream << linPrecision')],
 demo='''
    Silence<float> s; s.followedBy (GainLinear<float> (2.0)); EqualsTo<float> e (s); std::stringstream t; e.represent (t); NEED (t.str().find ("GainLinear") != std::string::npos);'''),
dict(id="s70-loop-short-block", property="C18", needs="a looping wav file signal and blocks longer than the file", breaks="a block longer than twice the file is silent at its end",
 edits=[(I+"signals/hart_wavfile.hpp", "while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)", "const size_t framesToCopy = std::min (numFrames, 2 * m_wavFrames->getNumFrames() - m_wavOffsetFrames);\n\n        while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < framesToCopy)"),
        (I+"signals/hart_wavfile.hpp", "            hassert (m_loop == Loop::no);\n\n", "")],
 demo='''
    AudioBuffer<float> a (1, 2); a[0][0] = 0.25f; a[0][1] = 0.5f;
    WavWriter<float>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::float32);
    WavFile<float> w ("a.wav", WavFile<float>::Loop::yes); w.prepare (1000.0, 1, 6); AudioBuffer<float> b (1, 6); w.renderNextBlock (b); NEED (b[0][4] == 0.25f);'''),
]
