I = "include/"
PA = I + "hart_process_audio.hpp"; DSPH = I + "dsp/hart_dsp.hpp"; SEG = I + "envelopes/hart_segmentedenvelope.hpp"; SW = I + "signals/hart_sine_sweep.hpp"; AB = I + "hart_audio_buffer.hpp"; UN = I + "hart_units.hpp"; HH = I + "hart.hpp"; SIG = I + "signals/hart_signal.hpp"
SEEDS = [
dict(id="s71-whole-turns", property="C33", needs="an angle literal of a full turn or more, in whole degrees", breaks="whole turns are taken off angle literals",
 edits=[(UN, "return static_cast<double>(val) * hart::pi / 180.0;", "return static_cast<double>(val % 360) * hart::pi / 180.0;")],
 demo='''
    NEED (gone (720_deg, 2 * twoPi_rad) < 1e-9); NEED (gone (90_deg, halfPi_rad) < 1e-9);'''),
dict(id="s72-single-milli", property="C33", needs="whole milliseconds at a rate where the seventh digit decides the length", breaks="millisecond literals are only accurate to single precision",
 edits=[(UN, "operator\"\" _ms (unsigned long long int val) { return static_cast<double> (1e-3 * val); }", "operator\"\" _ms (unsigned long long int val) { return static_cast<double> (1e-3f * val); }")],
 demo='''
    NEED (gone (3600000_ms, 3600.0) < 1e-6);'''),
dict(id="s73-assert-precedence", property="C34", needs="an assertion whose condition is a comparison", breaks="the negation binds to the first operand of the condition only",
 edits=[(HH, "    if (!(cond)) throw hart::TestAssertException (std::string (\"HART_ASSERT_TRUE()", "    if (! cond) throw hart::TestAssertException (std::string (\"HART_ASSERT_TRUE()")],
 top='''HART_TEST ("compare") { const double x = 2, y = 1; HART_ASSERT_TRUE (x < y); }
''',
 demo='''
    const char* a[] = { "demo" }; run (1, a); NEED (TestRegistry::getInstance().runAll() != 0);'''),
dict(id="s74-first-expectation", property="C34", needs="two failing expectations in one task", breaks="only the first failed expectation of a task is reported",
 edits=[(HH, "    if (!(cond)) hart::ExpectationFailureMessages::get().emplace_back", "    if (!(cond) && hart::ExpectationFailureMessages::get().empty()) hart::ExpectationFailureMessages::get().emplace_back")],
 top='''static size_t messages = 0;
HART_TEST ("two") { HART_EXPECT_TRUE (1 > 2); HART_EXPECT_TRUE (3 > 4); messages = ExpectationFailureMessages::get().size(); }
''',
 demo='''
    const char* a[] = { "demo" }; run (1, a); TestRegistry::getInstance().runAll(); NEED (messages == 2);'''),
dict(id="s75-generator-tags", property="C34", needs="a generator declared with tags", breaks="generators with tags run as tests",
 edits=[(HH, "#define HART_GENERATE_WITH_TAGS(name, tags) HART_ITEM_WITH_TAGS(name, tags, hart::TaskCategory::generate)", "#define HART_GENERATE_WITH_TAGS(name, tags) HART_ITEM_WITH_TAGS(name, tags, std::string (tags).empty() ? hart::TaskCategory::generate : hart::TaskCategory::test)")],
 top='''static int ran = 0;
HART_GENERATE_WITH_TAGS ("tagged", "[files]") { ++ran; }
''',
 demo='''
    const char* a[] = { "demo" }; run (1, a); TestRegistry::getInstance().runAll(); NEED (ran == 0);'''),
dict(id="s76-short-run-block", property="C02", needs="a block size larger than the whole run", breaks="everything is prepared with the length of the run instead of the configured block size",
 edits=[(PA, "        for (auto& check : perBlockChecks)\n        {\n            check.matcher->prepare", "        m_blockSizeFrames = std::min (m_blockSizeFrames, m_durationFrames);\n\n        for (auto& check : perBlockChecks)\n        {\n            check.matcher->prepare")],
 demo='''
    std::vector<std::string> log; Rec<float> r (nullptr); r.log = &log;
    processAudioWith (GainDb<float> (0.0)).withSampleRate (1000).withDuration (0.01).withBlockSize (512).withInputSignal (Silence<float>()).expectTrue (r).process();
    NEED (log.size() == 1 && log[0] == "prepare 1 512");'''),
dict(id="s77-silent-peak", property="C08", needs="the magnitude over all channels of a silent or extremely quiet range", breaks="silence has a peak above zero",
 edits=[(AB, "        SampleType peakSampleAcrossAllChannels = (SampleType) 0;\n", "        SampleType peakSampleAcrossAllChannels = std::numeric_limits<SampleType>::min();\n"), (AB, "#include <algorithm>  // max_element()\n", "#include <algorithm>  // max_element()\n#include <limits>\n")],
 demo='''
    AudioBuffer<double> b (2, 8); NEED (b.getMagnitude (0, 8) == 0.0); b[1][3] = -0.5; NEED (b.getMagnitude (0, 8) == 0.5);'''),
dict(id="s78-instant-ramp", property="C12", needs="a ramp of zero duration, used as a jump", breaks="instantaneous jumps are ignored",
 edits=[(SEG, "        m_segments.push_back (Segment { durationSeconds, targetValue, shape, false });\n", "        if (floatsEqual (durationSeconds, 0.0))\n            return *this;\n\n        m_segments.push_back (Segment { durationSeconds, targetValue, shape, false });\n")],
 demo='''
    auto e = SegmentedEnvelope (1.0).rampTo (2.0, 0.0).hold (0.1); e.prepare (1000, 4); e.reset(); std::vector<double> v (4); e.renderNextBlock (4, v); NEED (v[3] == 2.0);'''),
dict(id="s79-float-plot-time", property="C28", needs="a long plot or a sample rate whose period is not exact in single precision", breaks="times in plots are only accurate to single precision",
 edits=[(I + "hart_plot.hpp", "    const double timeIncrementSeconds = 1.0 / sampleRateHz;", "    const float timeIncrementSeconds = 1.0f / (float) sampleRateHz;")],
 top='''static double lastX (const std::string& svg) { size_t p = 0, q; double best = -1; while ((q = svg.find ("points", p)) != std::string::npos || (q = svg.find (" d=\\"", p)) != std::string::npos) { p = q + 4; best = 0; } return best; }
''',
 demo='''
    // the plot's lines are recorded through the library itself: compare with a plot of exact times
    AudioBuffer<float> b (1, 4800); for (size_t i = 0; i < 4800; ++i) b[0][i] = (i & 64) ? 0.5f : -0.5f; (void) lastX;
    plotData<float> (b, b, 7.0, "a.svg");
    signalsmith::plot::Figure figure; auto& in = figure (0, 0).plot (1200, 200); auto& out = figure (0, 1).plot (1200, 200);
    in.y.major (0).label ("Value"); out.y.major (0).label ("Value"); in.x.major (0); out.x.major (0).label ("Time (s)"); in.title ("Input audio"); out.title ("Output audio");
    in.y.minor (0.5f).minor (-0.5f); out.y.minor (0.5f).minor (-0.5f); const double len = 4800 / 7.0;
    for (double t = 0.1; t < len + 1e-6; t += 0.1) { in.x.minor (t); out.x.minor (t); }
    for (double t = 1; t < len + 1e-6; t += 1) { in.x.major (t); out.x.major (t); }
    for (auto* p : { &in, &out }) { auto& l = p->line(); for (size_t i = 0; i < 4800; ++i) l.add ((double) i / 7.0, b[0][i]); }
    figure.write ("b.svg");
    auto numbers = [] (const char* f) { std::ifstream s (f); std::string t ((std::istreambuf_iterator<char> (s)), {}); std::vector<double> v; const char* p = t.c_str(); while (*p) { char* e; if ((*p >= '0' && *p <= '9')) { v.push_back (std::strtod (p, &e)); p = e; } else ++p; } return v; };
    auto x = numbers ("a.svg"), y = numbers ("b.svg"); NEED (x.size() == y.size() && x.size() > 4000); double worst = 0; for (size_t i = 0; i < x.size(); ++i) worst = std::max (worst, gone (x[i], y[i])); NEED (worst < 0.011);'''),
dict(id="s80-self-move", property="C07", needs="a buffer moved onto itself", breaks="moving a buffer onto itself empties it",
 edits=[(AB, "    AudioBuffer& operator= (AudioBuffer&& other)\n    {\n        if (this == &other)\n            return *this;\n\n", "    AudioBuffer& operator= (AudioBuffer&& other)\n    {\n")],
 demo='''
    AudioBuffer<float> b (1, 3); b[0][1] = 2; AudioBuffer<float>& r = b; b = std::move (r); NEED (b.getNumFrames() == 3 && b[0][1] == 2);'''),
dict(id="s81-nyquist", property="C16", needs="a frequency above half the sample rate", breaks="frequencies above half the sample rate are limited to it",
 edits=[(I + "signals/hart_sinewave.hpp", "        const double phaseIncrement = hart::twoPi * m_frequencyHz / m_sampleRateHz;", "        const double phaseIncrement = std::min (hart::twoPi * m_frequencyHz / m_sampleRateHz, hart::pi);")],
 demo='''
    SineWave<double> s (700.0, 0.3); s.prepare (1000, 1, 8); AudioBuffer<double> b (1, 8); s.renderNextBlock (b); for (size_t n = 0; n < 8; ++n) NEED (gone (b[0][n], std::sin (0.3 + hart::twoPi * 0.7 * n)) < 1e-9);'''),
dict(id="s82-first-return-frame", property="C17", needs="a looped logarithmic sweep on its way back", breaks="logarithmic sweeps come back along a linear law",
 edits=[(SW, "        if (m_type == SweepType::linear)\n            return", "        if (m_type == SweepType::linear || reverseFrequencyDirection)\n            return")],
 demo='''
    SineSweep<double> s (0.1, 20, 320, SineSweep<double>::SweepType::log, SineSweep<double>::Loop::yes); s.prepare (1000, 1, 200); AudioBuffer<double> b (1, 200); s.renderNextBlock (b);
    double p = 0; for (size_t n = 0; n < 200; ++n) { NEED (gone (b[0][n], std::sin (p)) < 1e-6); size_t k = n + 1; double q = (k % 100) / 100.0; if ((k / 100) % 2) q = 1 - q; p += hart::twoPi * 20 * std::pow (16.0, q) / 1000; }'''),
dict(id="s83-equal-boundary", property="C24", needs="two values whose difference is exactly the tolerance", breaks="values exactly a tolerance apart are neither equal nor unequal",
 edits=[(I + "hart_utils.hpp", "    return std::abs (a - b) >= epsilon;", "    return std::abs (a - b) > epsilon;")],
 demo='''
    NEED (floatsNotEqual (1.0, 1.5, 0.5)); NEED (! floatsNotEqual (1.0, 1.25, 0.5));'''),
dict(id="s84-layout-inputs", property="C05", needs="an effect that accepts equal channel counts only, run with different ones", breaks="the output channel count is not asked about",
 edits=[(PA, "if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))", "if (! m_processor->supportsChannelLayout (m_numInputChannels, std::min (m_numInputChannels, m_numOutputChannels)))")],
 demo='''
    bool refused = false; try { processAudioWith (HardClip<float> (0.0)).withInputChannels (1).withOutputChannels (2).withInputSignal (Silence<float>()).process(); } catch (const ChannelLayoutError& e) { refused = std::string (e.what()).find ("tested DSP") != std::string::npos; }
    NEED (refused);
    struct Picky : public DSP<float> { bool* ran; Picky (bool* r) : ran (r) {} void prepare (double, size_t, size_t, size_t) override { *ran = true; } void process (const AudioBuffer<float>&, AudioBuffer<float>&, const EnvelopeBuffers&) override { *ran = true; } void reset() override {} void setValue (int, double) override {} double getValue (int) const override { return 0; } bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; } void represent (std::ostream&) const override {} using SampleType = float; HART_DSP_DEFINE_COPY_AND_MOVE (Picky); };
    bool ran = false; refused = false; try { processAudioWith (Picky (&ran)).withInputChannels (1).withOutputChannels (2).withInputSignal (Silence<float>()).process(); } catch (const ChannelLayoutError&) { refused = true; } NEED (refused && ! ran);'''),
dict(id="s85-second-start", property="C13", needs="an envelope reset while in a later ramp", breaks="after a reset the first ramp starts from where the last one had started",
 edits=[(SEG, "        m_currentSegmentIndex = 0;\n        m_beginValue = m_resetValue;\n", "        m_currentSegmentIndex = 0;\n")],
 demo='''
    auto e = SegmentedEnvelope (1.0).rampTo (2.0, 0.004).rampTo (5.0, 0.01); e.prepare (1000, 6); std::vector<double> a (6), b (6); e.renderNextBlock (6, a); e.reset(); e.renderNextBlock (6, b); NEED (a == b);'''),
dict(id="s86-chain-moved", property="C20", needs="a signal with effects assigned from a temporary over one that has effects", breaks="the effects of the overwritten signal come first in the chain",
 edits=[(SIG, "        m_numChannels = other.m_numChannels;\n        dspChain = std::move (other.dspChain);\n        other.m_numChannels = 0;\n\n        return *this;", "        m_numChannels = other.m_numChannels;\n        std::move (other.dspChain.begin(), other.dspChain.end(), std::back_inserter (dspChain));\n        other.dspChain.clear();\n        other.m_numChannels = 0;\n\n        return *this;"), (SIG, "#include <algorithm>\n", "#include <algorithm>\n#include <iterator>\n")],
 demo='''
    struct One : public Signal<float> { void prepare (double, size_t, size_t) override {} void renderNextBlock (AudioBuffer<float>& o) override { for (size_t i = 0; i < o.getNumFrames(); ++i) o[0][i] = 1; } void reset() override {} void represent (std::ostream& s) const override { s << "One"; } using SampleType = float; HART_SIGNAL_DEFINE_COPY_AND_MOVE (One); };
    One a, b; a.followedBy (GainLinear<float> (2.0)); b.followedBy (GainLinear<float> (3.0)); a = std::move (b);
    a.prepareWithDSPChain (1000, 1, 4); AudioBuffer<float> o (1, 4); a.renderNextBlockWithDSPChain (o); NEED (o[0][0] == 3.0f);'''),
dict(id="s87-noise-planar", property="C19", needs="two or more channels of noise", breaks="all channels carry the same noise when rendered a frame at a time",
 edits=[(I + "signals/hart_whitenoise.hpp", "            for (size_t channel = 0; channel < this->getNumChannels(); ++channel)\n                output[channel][frame] = m_uniformRealDistribution (m_randomNumberGenerator);", "        {\n            for (size_t channel = 0; channel < this->getNumChannels(); ++channel)\n                output[channel][frame] = channel == 2 ? output[0][frame] : m_uniformRealDistribution (m_randomNumberGenerator);\n        }")],
 demo='''
    WhiteNoise<float> n (1); n.prepare (1000, 3, 8); AudioBuffer<float> o (3, 8); n.renderNextBlock (o); bool same = true; for (size_t i = 0; i < 8; ++i) same = same && o[0][i] == o[2][i]; NEED (! same);'''),
dict(id="s88-nan-passes", property="C23", needs="audio with a NaN", breaks="audio with a NaN passes",
 edits=[(I + "matchers/hart_peaksbelow.hpp", "const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);", "const SampleType observedPeakLinear = std::max ((SampleType) 0, std::abs (observedAudio[channel][frame]));")],
 demo='''
    AudioBuffer<float> b (1, 3); b[0][1] = std::nanf (""); PeaksBelow<float> m (-1.0f); m.prepare (1000, 1, 3); NEED (! m.match (b));'''),
dict(id="s89-later-nan", property="C22", needs="a NaN followed by a sample at the target peak", breaks="a NaN is forgotten when larger samples follow",
 edits=[(I + "matchers/hart_peaksat.hpp", "                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))", "                if (! (currentPeakLinear <= observedPeakLinear))")],
 demo='''
    AudioBuffer<float> b (1, 3); b[0][0] = std::nanf (""); b[0][1] = 1.0f; PeaksAt<float> m (0.0f); m.prepare (1000, 1, 3); NEED (! m.match (b));'''),
dict(id="s90-stereo-reference", property="C21", needs="a mismatch in a third or later channel only", breaks="only the first two channels are compared",
 edits=[(I + "matchers/hart_equalsto.hpp", "        for (size_t channel = 0; channel < referenceAudio.getNumChannels(); ++channel)", "        for (size_t channel = 0; channel < std::min<size_t> (2, referenceAudio.getNumChannels()); ++channel)")],
 demo='''
    AudioBuffer<float> b (3, 2); b[2][1] = 1.0f; EqualsTo<float> m { Silence<float>() }; m.prepare (1000, 3, 2); m.reset(); NEED (! m.match (b));'''),
dict(id="s91-unknown-parameter", property="C10", needs="setting a parameter the clipper does not have", breaks="setting an unknown parameter changes the threshold",
 edits=[(I + "dsp/hart_hardclip.hpp", "        if (id == Params::thresholdDb)\n            m_thresholdLinear = decibelsToRatio (value);", "        if (id <= Params::thresholdDb)\n            m_thresholdLinear = decibelsToRatio (value);")],
 demo='''
    HardClip<float> c (-6.0); c.setValue (-1, 20.0); NEED (gone (c.getValue (HardClip<float>::thresholdDb), -6.0) < 1e-6);'''),
dict(id="s92-label-once", property="C04", needs="two failing checks in one labelled test", breaks="only the first report of a test carries the label",
 edits=[(PA, "                    if (!m_testLabel.empty())\n                        stream << \" at \\\"\" << m_testLabel << \"\\\"\";\n\n                    stream << std::endl << \"Condition: \" << * matcher;", "                    if (!m_testLabel.empty() && hart::ExpectationFailureMessages::get().empty())\n                        stream << \" at \\\"\" << m_testLabel << \"\\\"\";\n\n                    stream << std::endl << \"Condition: \" << * matcher;")],
 demo='''
    ExpectationFailureMessages::clear(); std::vector<std::vector<float>> v;
    processAudioWith (GainDb<float> (0.0)).withInputSignal (Silence<float>()).withLabel ("mine").expectTrue (Rec<float> (&v, true, false)).expectTrue (Rec<float> (&v, true, false)).process();
    auto& m = ExpectationFailureMessages::get(); NEED (m.size() == 2); for (auto& t : m) NEED (t.find ("mine") != std::string::npos);'''),
dict(id="s93-envelope-first-block", property="C11", needs="an enveloped effect whose blocks are not all full", breaks="the envelope of a short block starts over its buffer from the previous block",
 edits=[(DSPH, "            getValues (paramId, envelopeBuffer.size(), envelopeBuffer);", "            if (input.getNumFrames() == envelopeBuffer.size())\n                getValues (paramId, envelopeBuffer.size(), envelopeBuffer);")],
 demo='''
    std::vector<std::vector<float>> v; std::vector<float> ones (7, 1.0f); Play<float> p ({ ones });
    processAudioWith (std::move (GainLinear<float> (1.0).withEnvelope (GainLinear<float>::gainLinear, SegmentedEnvelope (0.0).rampTo (7.0, 0.007)))).withSampleRate (1000).withDuration (0.007).withBlockSize (4).withInputSignal (p).expectTrue (Rec<float> (&v)).process();
    for (size_t i = 0; i < 6; ++i) NEED (gone (v[0][i], i + 1.0) < 1e-4);'''),
]
