I = "include/"
SEEDS = [
dict(id="s01-lonely-last-frame", property="C01", needs="a run whose last block is exactly one frame long (duration = k*block + 1)", breaks="the final frame is never rendered, checked or saved",
 edits=[(I+"hart_process_audio.hpp", "while (offsetFrames < m_durationFrames)", "while (offsetFrames + 1 < m_durationFrames || offsetFrames == 0)")],
 demo='''
    std::vector<std::vector<float>> seen, in { { .1f, .2f, .3f, .4f, .5f, .6f, .7f, .8f, .9f } };
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.009).withBlockSize (4).withInputSignal (Play<float> (in)).expectTrue (Rec<float> (&seen)).process();
    NEED (seen.size() == 1 && seen[0].size() == 9);'''),
dict(id="s02-full-matcher-layout", property="C02", needs="a full-signal check in a run whose input and output channel counts differ", breaks="full-signal matchers are prepared with the input channel count",
 edits=[(I+"hart_process_audio.hpp", "for (auto& check : fullSignalChecks)\n        {\n            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels,", "for (auto& check : fullSignalChecks)\n        {\n            check.matcher->prepare (m_sampleRateHz, m_numInputChannels,")],
 demo='''
    std::vector<std::string> log; Rec<float> r (nullptr, false); r.log = &log;
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.01).withBlockSize (4).withMonoInput().withOutputChannels (3).withInputSignal (Silence<float>()).expectTrue (r).process();
    NEED (log.size() == 1 && log[0] == "prepare 3 4");'''),
dict(id="s03-expect-again", property="C03", needs="an inverted per-block-capable check next to another failing expectation, or a true check that fails in two blocks", breaks="a failed expectation on per-block audio is reported again for later blocks",
 edits=[(I+"hart_process_audio.hpp", "check.shouldSkip = true;\n", "check.shouldSkip = allChecksPassed;\n")],
 demo='''
    ExpectationFailureMessages::clear();
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.012).withBlockSize (4).withInputSignal (Silence<float>())
        .expectTrue (Rec<float> (nullptr, true, false)).expectTrue (Rec<float> (nullptr, true, false)).process();
    NEED (ExpectationFailureMessages::get().size() == 2);'''),
dict(id="s04-first-channel-value", property="C04", needs="a failing check whose offending sample is not in the first channel", breaks="the report shows the sample of channel 0 as the offending value",
 edits=[(I+"hart_process_audio.hpp", "const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];", "const SampleType* const* const audio = observedAudioBlock.getArrayOfReadPointers();\n        const SampleType sampleValue = audio[0][details.frame];")],
 demo='''
    const char* a[] = { "x" }; run (1, a);
    ExpectationFailureMessages::clear();
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.004).withBlockSize (4).inStereo().withInputSignal (Play<float> ({ { .25f, .25f, .25f, .25f }, { .25f, .25f, .75f, .25f } })).expectTrue (PeaksBelow<float> (-6.0)).process();
    NEED (ExpectationFailureMessages::get().size() == 1);
    NEED (ExpectationFailureMessages::get()[0].find ("0.750000") != std::string::npos);'''),
dict(id="s05-128-outputs", property="C05", needs="a run with exactly 128 output channels", breaks="a legal channel count is refused",
 edits=[(I+"hart_process_audio.hpp", "if (numOutputChannels > 128)", "if (numOutputChannels >= 128)")],
 demo='''
    auto b = processAudioWith (GainDb<float> (0.0));
    b.withOutputChannels (128);
    bool refused = false; try { b.withOutputChannels (129); } catch (const SizeError&) { refused = true; }
    NEED (refused);'''),
dict(id="s06-forgotten-block-failure", property="C06", needs="Save::whenFails with a failing per-block expectation and all full-signal checks passing", breaks="output is not saved although the test failed",
 edits=[(I+"hart_process_audio.hpp", "atLeastOneCheckFailed |= ! processChecks (fullSignalChecks, fullOutputBuffer);", "atLeastOneCheckFailed = ! processChecks (fullSignalChecks, fullOutputBuffer) || m_assertionHasFailed;")],
 demo='''
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.008).withBlockSize (4).withInputSignal (Silence<float>()).expectTrue (Rec<float> (nullptr, true, false)).expectTrue (Rec<float> (nullptr, false, true)).saveOutputTo ("out.wav", Save::whenFails).process();
    NEED (std::ifstream ("./out.wav").good());'''),
dict(id="s07-assign-stride", property="C07", needs="assigning a shorter multi-channel buffer to a longer one", breaks="channels after the first point at stale positions after a copy assignment",
 edits=[(I+"hart_audio_buffer.hpp", "        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n        m_channelPointers.resize (m_numChannels);\n        updateChannelPointers();\n\n        return *this;", "        const SampleType* const storage = m_frames.data();\n        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n        m_channelPointers.resize (m_numChannels);\n\n        if (m_frames.data() != storage)\n            updateChannelPointers();\n\n        return *this;")],
 demo='''
    AudioBuffer<float> a (2, 6), b (2, 3);
    for (size_t c = 0; c < 2; ++c) { for (size_t f = 0; f < 6; ++f) a[c][f] = 9.0f; for (size_t f = 0; f < 3; ++f) b[c][f] = float (10 * c + f); }
    a = b;
    NEED (a.getNumFrames() == 3 && a[0][2] == 2.0f);
    NEED (a[1] == a[0] + 3 && a[1][0] == 10.0f);'''),
dict(id="s08-range-stride", property="C08", needs="the all-channel magnitude of part of a buffer with two or more channels", breaks="the peak is looked up in the wrong frames",
 edits=[(I+"hart_audio_buffer.hpp", "            const SampleType* start = m_channelPointers[channel] + startFrame;\n            const", "            const SampleType* start = &m_frames[channel * numFrames + startFrame];\n            const")],
 demo='''
    AudioBuffer<float> a (2, 4);
    for (size_t f = 0; f < 4; ++f) { a[0][f] = 0.1f; a[1][f] = 0.2f; }
    a[1][1] = -0.9f; a[0][3] = 0.8f;
    NEED (a.getMagnitude (1, 2) == 0.9f);
    NEED (a.getMagnitude (0, 2) == 0.9f);'''),
dict(id="s09-enveloped-multiplexer", property="C09", needs="GainDb with an envelope, mono in and several channels out", breaks="only the first output channel is written",
 edits=[(I+"dsp/hart_gaindb.hpp", "void processEnvelopedGainAsMultiplexer (const AudioBuffer<SampleType>& input, AudioBuffer<SampleType>& output)\n    {\n        for (size_t channel = 0; channel < output.getNumChannels(); ++channel)", "void processEnvelopedGainAsMultiplexer (const AudioBuffer<SampleType>& input, AudioBuffer<SampleType>& output)\n    {\n        for (size_t channel = 0; channel < input.getNumChannels(); ++channel)")],
 demo='''
    std::vector<std::vector<float>> seen;
    GainDb<float> g; g.withEnvelope (GainDb<float>::gainDb, SegmentedEnvelope (0.0).hold (1.0));
    processAudioWith (g).withSampleRate (1000).withDuration (0.004).withBlockSize (4).withMonoInput().withStereoOutput().withInputSignal (Play<float> ({ { .5f, .5f, .5f, .5f } })).expectTrue (Rec<float> (&seen)).process();
    NEED (seen.size() == 2 && gone (seen[1][1], .5) < 1e-6);'''),
dict(id="s10-first-channel-decides", property="C10", needs="several channels of which the first stays below the threshold and another exceeds it", breaks="channels after the first are not clipped when the first needs no clipping",
 edits=[(I+"dsp/hart_hardclip.hpp", "        for (size_t channel = 0; channel < numChannels; ++channel)\n            for", "        if (numChannels > 0 && numFrames > 0 && input.getMagnitude (0, 0, numFrames) <= (SampleType) m_thresholdLinear)\n        {\n            for (size_t channel = 0; channel < numChannels; ++channel)\n                std::copy (input[channel], input[channel] + numFrames, output[channel]);\n\n            return;\n        }\n\n        for (size_t channel = 0; channel < numChannels; ++channel)\n            for")],
 demo='''
    HardClip<float> h (-20.0);
    AudioBuffer<float> i (2, 2), o (2, 2); i[0][0] = i[0][1] = 0.01f; i[1][0] = 0.9f; i[1][1] = -0.9f;
    h.process (i, o, EnvelopeBuffers());
    NEED (gone (o[1][0], 0.1) < 1e-5); NEED (gone (o[1][1], -0.1) < 1e-5);'''),
dict(id="s11-gain-scratch", property="C11", needs="an enveloped GainDb that is run again with a smaller block size", breaks="the second run of the same DSP dies on an internal assertion or uses stale gains",
 edits=[(I+"dsp/hart_gaindb.hpp", "m_gainEnvelopeValuesLinear.resize (this->hasEnvelopeFor (Params::gainDb) ? maxBlockSizeFrames : 0);", "if (this->hasEnvelopeFor (Params::gainDb) && m_gainEnvelopeValuesLinear.size() < maxBlockSizeFrames)\n            m_gainEnvelopeValuesLinear.resize (maxBlockSizeFrames);")],
 demo='''
    std::unique_ptr<DSP<float>> g (new GainDb<float>()); g->withEnvelope (GainDb<float>::gainDb, SegmentedEnvelope (-6.0).rampTo (0.0, 0.01));
    g = processAudioWith (std::move (g)).withSampleRate (1000).withDuration (0.008).withBlockSize (8).withInputSignal (Silence<float>()).process();
    g = processAudioWith (std::move (g)).withSampleRate (1000).withDuration (0.008).withBlockSize (4).withInputSignal (Silence<float>()).process();
    NEED (g != nullptr);'''),
dict(id="s12-segment-start", property="C12", needs="two ramps in a row whose boundary falls between two frames", breaks="the second ramp starts from the last rendered value instead of the first ramp's target",
 edits=[(I+"envelopes/hart_segmentedenvelope.hpp", "m_beginValue = currentSegment.targetValue;\n                ++m_currentSegmentIndex;", "m_beginValue = m_currentValue;\n                ++m_currentSegmentIndex;")],
 demo='''
    SegmentedEnvelope e (0.0); e.rampTo (10.0, 0.0025).rampTo (20.0, 0.0025);
    e.prepare (1000.0, 4); std::vector<double> v (4); e.renderNextBlock (4, v);
    NEED (gone (v[1], 8.0) < 1e-9); NEED (gone (v[2], 12.0) < 1e-9);'''),
dict(id="s13-leftover-time", property="C13", needs="reset() of an envelope that has rendered an amount that is not the end of a segment, then rendering again", breaks="after reset the envelope continues from the time inside the old segment",
 edits=[(I+"envelopes/hart_segmentedenvelope.hpp", "        m_currentTimeSeconds = 0.0;\n        m_currentSegmentIndex = 0;", "        if (m_currentSegmentIndex != 0)\n            m_currentTimeSeconds = 0.0;\n\n        m_currentSegmentIndex = 0;")],
 demo='''
    SegmentedEnvelope e (0.0); e.rampTo (10.0, 0.01);
    e.prepare (1000.0, 4); std::vector<double> v (4), w (4); e.renderNextBlock (4, v); e.reset(); e.renderNextBlock (4, w);
    NEED (v == w);'''),
dict(id="s14-sweep-end-on-boundary", property="C14", needs="a single sweep that ends exactly at the end of a block, rendered further", breaks="the sweep starts again instead of staying silent",
 edits=[(I+"signals/hart_sine_sweep.hpp", "m_posFrames = 0;\n                    m_generateSilence = true;", "m_posFrames = 0;\n                    m_generateSilence = frame + 1 < output.getNumFrames();")],
 demo='''
    SineSweep<float> s (0.004, 100.0, 200.0); s.prepare (1000.0, 1, 4); s.reset();
    AudioBuffer<float> b (1, 4); s.renderNextBlock (b); s.renderNextBlock (b);
    for (size_t f = 0; f < 4; ++f) NEED (b[0][f] == 0.0f);'''),
dict(id="s15-sweep-direction", property="C15", needs="a looping sweep reset while it is sweeping backwards", breaks="after reset the sweep keeps running backwards",
 edits=[(I+"signals/hart_sine_sweep.hpp", "m_generateSilence = floatsEqual (m_durationSeconds, 0.0);\n        m_reverseFrequencyDirection = false;", "m_generateSilence = floatsEqual (m_durationSeconds, 0.0);\n        m_reverseFrequencyDirection = m_reverseFrequencyDirection && m_loop == Loop::yes;")],
 demo='''
    SineSweep<float> s (0.006, 50.0, 300.0, SineSweep<float>::SweepType::linear, SineSweep<float>::Loop::yes); s.prepare (1000.0, 1, 8); s.reset();
    AudioBuffer<float> a (1, 8), b (1, 8); s.renderNextBlock (a); s.reset(); s.renderNextBlock (b);
    for (size_t f = 0; f < 8; ++f) NEED (a[0][f] == b[0][f]);'''),
dict(id="s16-first-rate-sticks", property="C16", needs="the same sine wave object prepared again with another sample rate after it has rendered", breaks="the phase step of the first sample rate is kept",
 edits=[(I+"signals/hart_sinewave.hpp", "const double phaseIncrement = hart::twoPi * m_frequencyHz / m_sampleRateHz;", "if (m_phaseIncrement <= 0)\n            m_phaseIncrement = hart::twoPi * m_frequencyHz / m_sampleRateHz;\n\n        const double phaseIncrement = m_phaseIncrement;"),
        (I+"signals/hart_sinewave.hpp", "    double m_sampleRateHz;\n", "    double m_sampleRateHz;\n    double m_phaseIncrement = 0;\n")],
 demo='''
    SineWave<double> s (100.0, 0.0); AudioBuffer<double> b (1, 4); s.prepare (1000.0, 1, 4); s.reset(); s.renderNextBlock (b);
    s.prepare (2000.0, 1, 4); s.reset(); s.renderNextBlock (b);
    NEED (gone (b[0][2], std::sin (twoPi * 100.0 * 2 / 2000.0)) < 1e-9);'''),
dict(id="s17-linear-return-trip", property="C17", needs="a looping linear sweep observed after its first pass", breaks="linear sweeps jump back to the start frequency instead of sweeping back",
 edits=[(I+"signals/hart_sine_sweep.hpp", "        portion = reverseFrequencyDirection ? 1.0 - portion : portion;\n\n        if (m_type == SweepType::linear)\n            return m_startFrequencyHz + (m_endFrequencyHz - m_startFrequencyHz) * portion;\n", "\n        if (m_type == SweepType::linear)\n            return m_startFrequencyHz + (m_endFrequencyHz - m_startFrequencyHz) * portion;\n\n        portion = reverseFrequencyDirection ? 1.0 - portion : portion;")],
 demo='''
    SineSweep<double> s (0.1, 10.0, 200.0, SineSweep<double>::SweepType::linear, SineSweep<double>::Loop::yes); s.prepare (1000.0, 1, 200); s.reset();
    AudioBuffer<double> b (1, 200); s.renderNextBlock (b);
    double up = 0, back = 0; for (size_t f = 0; f < 10; ++f) { up += std::abs (b[0][f + 1] - b[0][f]); back += std::abs (b[0][101 + f] - b[0][100 + f]); }
    NEED (back > 2 * up);'''),
dict(id="s18-one-shot-reset", property="C18", needs="a non-looping wav file signal that is reset after it has been played", breaks="a one-shot wav file is not rewound by reset",
 edits=[(I+"signals/hart_wavfile.hpp", "m_wavOffsetFrames = 0;\n    }", "m_wavOffsetFrames = m_loop == Loop::yes ? 0 : m_wavOffsetFrames % m_wavFrames->getNumFrames();\n    }")],
 demo='''
    AudioBuffer<float> a (1, 4); for (size_t f = 0; f < 4; ++f) a[0][f] = 0.1f * (f + 1);
    WavWriter<float>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::float32);
    WavFile<float> w ("a.wav"); w.prepare (1000.0, 1, 3); AudioBuffer<float> b (1, 3); w.renderNextBlock (b); w.reset(); w.renderNextBlock (b);
    NEED (b[0][0] == a[0][0]);'''),
dict(id="s19-noise-order", property="C14", needs="white noise in two or more channels rendered with different block sizes", breaks="the noise depends on how it is split into blocks",
 edits=[(I+"signals/hart_whitenoise.hpp", "        for (size_t frame = 0; frame < output.getNumFrames(); ++frame)\n            for (size_t channel = 0; channel < this->getNumChannels(); ++channel)\n", "        for (size_t channel = 0; channel < this->getNumChannels(); ++channel)\n            for (size_t frame = 0; frame < output.getNumFrames(); ++frame)\n")],
 demo='''
    WhiteNoise<float> n (5); n.prepare (1000.0, 2, 4); AudioBuffer<float> w (2, 4), h (2, 2); n.reset(); n.renderNextBlock (w); n.reset(); n.renderNextBlock (h);
    NEED (w[1][0] == h[1][0] && w[0][1] == h[0][1]);'''),
dict(id="s20-assigned-chain", property="C20", needs="copy assignment of a signal over one that already has an effect chain", breaks="the effects of the overwritten signal stay in the chain",
 edits=[(I+"signals/hart_signal.hpp", "        m_numChannels = other.m_numChannels;\n        dspChain.clear();\n\n        if (other.dspChain.size() == 0)\n            return *this;", "        m_numChannels = other.m_numChannels;\n\n        if (other.dspChain.size() == 0)\n        {\n            dspChain.clear();\n            return *this;\n        }\n\n        dspChain.reserve (other.dspChain.size());")],
 demo='''
    Play<float> a ({ { 1.0f, 1.0f } }), b ({ { 1.0f, 1.0f } }); a.followedBy (GainLinear<float> (0.5)); b.followedBy (GainLinear<float> (0.5));
    static_cast<Signal<float>&> (a) = static_cast<const Signal<float>&> (b);
    a.prepareWithDSPChain (1000.0, 1, 2); AudioBuffer<float> o (1, 2); a.renderNextBlockWithDSPChain (o);
    NEED (o[0][0] == 0.5f);'''),
dict(id="s21-copied-tolerance", property="C21", needs="a named EqualsTo matcher with a tolerance of its own, copied into the test", breaks="copies of the matcher fall back to the default tolerance",
 edits=[(I+"matchers/hart_equalsto.hpp", "m_referenceSignal (other.m_referenceSignal != nullptr ? other.m_referenceSignal->copy() : nullptr),\n        m_toleranceLinear (other.m_toleranceLinear)", "m_referenceSignal (other.m_referenceSignal != nullptr ? other.m_referenceSignal->copy() : nullptr),\n        m_toleranceLinear (std::min (other.m_toleranceLinear, (SampleType) 1e-5))")],
 demo='''
    EqualsTo<float> e (Silence<float>(), 0.5);
    ExpectationFailureMessages::clear();
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.004).withBlockSize (4).withInputSignal (Play<float> ({ { .1f, .2f, .3f, .4f } })).expectTrue (e).process();
    NEED (ExpectationFailureMessages::get().empty());'''),
dict(id="s22-positive-peak", property="C22", needs="a signal whose largest excursion is negative", breaks="negative excursions do not count as peaks",
 edits=[(I+"matchers/hart_peaksat.hpp", "const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);", "const SampleType currentPeakLinear = frame == 0 ? std::abs (observedAudio[channel][frame]) : observedAudio[channel][frame];")],
 demo='''
    PeaksAt<float> p (0.0); AudioBuffer<float> b (1, 3); b[0][0] = 0.1f; b[0][1] = -1.0f; b[0][2] = 0.5f;
    NEED (p.match (b));'''),
dict(id="s23-tolerance-in-db", property="C23", needs="a sample between the threshold in dB shifted by the tolerance and the linear one", breaks="the linear tolerance is applied in decibels",
 edits=[(I+"matchers/hart_peaksbelow.hpp", "decibelsToRatio (thresholdDb) + toleranceLinear", "decibelsToRatio (thresholdDb + toleranceLinear)")],
 demo='''
    PeaksBelow<float> p (0.0, 0.2); AudioBuffer<float> b (1, 1); b[0][0] = 1.15f;
    NEED (p.match (b));'''),
dict(id="s24-db-floor", property="C24", needs="a level of exactly -120 dB", breaks="-120 dB converts to zero instead of 1e-6",
 edits=[(I+"hart_utils.hpp", "if (valueDb < -120)", "if (valueDb <= -120)")],
 demo='''
    NEED (gone (decibelsToRatio (-120.0), 1e-6) < 1e-9);'''),
dict(id="s25-pcm32-top", property="C25", needs="a 32-bit integer wav file holding a sample of +1.0 or above", breaks="full-scale positive samples overflow to the most negative value",
 edits=[(I+"hart_wavwriter.hpp", "constexpr double scale = 2147483647.0;", "constexpr double scale = 2147483648.0;")],
 demo='''
    AudioBuffer<double> a (1, 2); a[0][0] = 1.0; a[0][1] = -1.0; volatile double top = a[0][0]; a[0][0] = top;
    WavWriter<double>::writeBuffer (a, "./a.wav", 1000.0, WavFormat::pcm32);
    WavFile<double> w ("a.wav"); w.prepare (1000.0, 1, 2); AudioBuffer<double> b (1, 2); w.renderNextBlock (b);
    NEED (b[0][0] > 0.99);'''),
dict(id="s26-leaking-messages", property="C26", needs="a task with failed expectations followed by a task that passes", breaks="the failures of one task are blamed on the next",
 edits=[(I+"hart_test_registry.hpp", "        bool assertionFailed = false;\n        std::string assertionFailMessage;\n        ExpectationFailureMessages::clear();\n", "        bool assertionFailed = false;\n        std::string assertionFailMessage;\n\n        if (tasksFailed == 0)\n            ExpectationFailureMessages::clear();\n")],
 full='''
static void t1() { HART_EXPECT_TRUE (1 == 2) }
static void t2() {}
int demo()
{
    auto& r = TestRegistry::getInstance(); r.add ("a", "", TaskCategory::test, &t1); r.add ("b", "", TaskCategory::test, &t2);
    std::stringstream s; std::streambuf* old = std::cout.rdbuf (s.rdbuf()); int rc = r.runAll(); std::cout.rdbuf (old);
    NEED (rc == 1); NEED (s.str().find ("[ PASSED ] 1/2") != std::string::npos);
    return 0;
}
'''),
dict(id="s27-rad-decimals", property="C27", needs="different decimals configured for Hz and for radians", breaks="radians are printed with the decimals of Hz",
 edits=[(I+"hart_precision.hpp", "CLIConfig::getInstance().getRadDecimals()", "CLIConfig::getInstance().getHzDecimals()")],
 demo='''
    const char* a[] = { "x", "--rad-decimals", "4" }; run (3, a);
    std::stringstream s; s << radPrecision << 1.5;
    NEED (s.str() == "1.5000");'''),
dict(id="s28-plot-outputs", property="C28", needs="a plot of a run with more output than input channels", breaks="output channels beyond the input's are missing from the plot",
 edits=[(I+"hart_plot.hpp", "for (size_t channel = 0; channel < output.getNumChannels(); ++channel)", "const size_t numOutputLines = std::min (input.getNumChannels(), output.getNumChannels());\n\n    for (size_t channel = 0; channel < numOutputLines; ++channel)")],
 demo='''
    AudioBuffer<float> i (1, 4), o (2, 4); for (size_t f = 0; f < 4; ++f) { i[0][f] = 0.1f * f; o[0][f] = 0.2f * f; o[1][f] = 0.3f * f; }
    plotData (i, o, 1000.0, "./three.svg"); plotData (i, i, 1000.0, "./two.svg");
    auto lines = [] (const char* n) { std::ifstream f (n); std::string t ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char>()); size_t c = 0, p = 0; while ((p = t.find ("svg-plot-line", p)) != std::string::npos) { ++c; ++p; } return c; };
    NEED (lines ("./three.svg") > lines ("./two.svg"));'''),
dict(id="s29-named-dsp-moved", property="C29", needs="a named effect with an envelope given to the host and used again afterwards", breaks="the named effect loses its envelope",
 edits=[(I+"hart_process_audio.hpp", ": m_processor (dsp.copy())", ": m_processor (std::is_const<typename std::remove_reference<DSPType>::type>::value ? dsp.copy() : const_cast<typename std::decay<DSPType>::type&> (dsp).move())")],
 demo='''
    GainDb<float> g; g.withEnvelope (GainDb<float>::gainDb, SegmentedEnvelope (-20.0).hold (1.0));
    processAudioWith (g).withSampleRate (1000).withDuration (0.004).withInputSignal (Silence<float>()).process();
    NEED (g.hasEnvelopeFor (GainDb<float>::gainDb));'''),
dict(id="s30-printed-not-refused", property="C30", needs="HART_DO_NOT_THROW_EXCEPTIONS and a block size of zero", breaks="the error is printed but the illegal block size is taken over",
 pre="#define HART_DO_NOT_THROW_EXCEPTIONS 1\n",
 edits=[(I+"hart_process_audio.hpp", "HART_THROW_OR_RETURN (hart::SizeError, \"Illegal block size - should be a positive value in frames (samples)\", *this);", "HART_THROW (hart::SizeError, \"Illegal block size - should be a positive value in frames (samples)\");")],
 demo='''
    ::alarm (20);
    std::vector<std::vector<float>> seen;
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.004).withBlockSize (2).withBlockSize (0).withInputSignal (Silence<float>()).expectTrue (Rec<float> (&seen)).process();
    NEED (seen.size() == 1 && seen[0].size() == 4);'''.replace("::alarm (20);", "")),
dict(id="s31-plot-path", property="C31", needs="a plot saved to a relative path with a data root other than the working directory", breaks="relative plot paths ignore the data root",
 edits=[(I+"hart_process_audio.hpp", "m_savePlotPath = toAbsolutePath (path);", "m_savePlotPath = isAbsolutePath (path) ? toAbsolutePath (path) : path;")],
 demo='''
    if (std::system ("mkdir -p sub") != 0) return 2;
    const char* a[] = { "x", "-d", "sub" }; run (3, a);
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.004).withInputSignal (Silence<float>()).savePlotTo ("p.svg").process();
    NEED (std::ifstream ("sub/p.svg").good());'''),
]
