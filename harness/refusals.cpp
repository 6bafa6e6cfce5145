// BOUND: setters: every double / every 64-bit value. process(): all 2^7 combinations of faults (no signal, DSP layout, DSP rate, signal channels, signal rate, chained effect layout / rate), durations up to 0.4 s (symbolic) at 8 Hz; a DSP, signal or chained effect that supports one layout (1..3 in, 1..3 out) and one range of sample rates (symbolic), against runs with 1..3 in, 1..3 out and any sample rate from 2 to 4 kHz; float and double
#include "probes.hpp"
template <typename T> static void setters()
{
    Log dl, sl; TableDsp<T> dsp (nullptr, &dl); Table<T> in (1, 4); TableSignal<T> sig (in, &sl);
    dsp.rateOk = true;
    const int which = (int) hse_pick ("setter", 0, 6);
    const bool ok = which != 6;
    TableDsp<T> d2 (nullptr, &dl); d2.rateOk = ok;
    auto b = hart::processAudioWith (d2);
    Outcome o = okay; int refuse = 0; Outcome want = okay;
    if (which == 0 || which == 6)
    {
        const double r = hse_f64 ("rate"); const int bad = hse_not (hse_and (r > 0, r <= 1.7976931348623157e308));
        o = outcomeOf ([&] { b.withSampleRate (r); });
        hse_check (hse_implies (bad, o == valueError), "a sample rate that is not positive and finite is refused with a value error");
        hse_check (hse_implies (hse_not (bad), o == (ok ? okay : sampleRateError)), "a positive finite sample rate is accepted, or refused with a sample rate error if the DSP does not support it");
        return;
    }
    if (which == 1) { const uint64_t n = hse_u64 ("block", 0, UINT64_MAX); refuse = n == 0; want = sizeError; o = outcomeOf ([&] { b.withBlockSize (n); }); }
    if (which == 2) { const uint64_t n = hse_u64 ("channels", 0, UINT64_MAX); refuse = hse_or (n == 0, n > 128); want = sizeError; o = outcomeOf ([&] { b.withInputChannels (n); }); }
    if (which == 3) { const uint64_t n = hse_u64 ("channels", 0, UINT64_MAX); refuse = hse_or (n == 0, n > 128); want = sizeError; o = outcomeOf ([&] { b.withOutputChannels (n); }); }
    if (which == 4 || which == 5) { const double d = hse_f64 ("duration"); refuse = hse_not (hse_and (d >= 0, d <= 1.7976931348623157e308)); want = valueError; o = outcomeOf ([&] { b.withDuration (d); }); }
    hse_check (hse_implies (refuse, o == want), "an impossible block size, channel count or duration is refused with its error");
    hse_check (hse_implies (hse_not (refuse), o == okay), "every other block size, channel count and duration is accepted");
    hse_obs_u64 ("outcome", o);
}
template <typename T> static void faults()
{
    const unsigned f = (unsigned) hse_pick ("faults", 0, 127); const size_t chain = f & 1 ? 1 : hse_pick ("chain", 1, 4);   // the odd effect is alone, last of two, first of two, second of three
    Log dl, sl, cl, el; Table<T> in (1, 4); TableSignal<T> sig (in, &sl); TableDsp<T> dsp (nullptr, &dl), eff (nullptr, &cl), fine (nullptr, &el);
    const bool noSignal = f & 1; dsp.layoutOk = ! (f & 2); dsp.rateOk = ! (f & 4); sig.chOk = ! (f & 8); sig.rateOk = ! (f & 16); eff.layoutOk = ! (f & 32); eff.rateOk = ! (f & 64);
    if (chain != 1 && chain != 3) sig.followedBy (fine); sig.followedBy (eff); if (chain > 2) sig.followedBy (fine);
    auto b = hart::processAudioWith (dsp);
    typename ProbeMatcher<T>::Rec rec (1, 8);
    b.withBlockSize (4).withDuration (4.0 / 44100).expectTrue (ProbeMatcher<T> (&rec, true, (T) INFINITY));   // default rate: withSampleRate() would refuse at once
    if (! noSignal) b.withInputSignal (sig);
    std::unique_ptr<hart::DSP<T>> back; const Outcome o = outcomeOf ([&] { back = b.process(); });
    const bool sigFaults = ! noSignal;
    const bool state = noSignal, layout = (f & 2) || (sigFaults && (f & (8 | 32))), rate = (f & 4) || (sigFaults && (f & (16 | 64)));
    if (! state && ! layout && ! rate) hse_check (o == okay, "a run without faults is accepted");
    else
    {
        hse_check ((o == stateError && state) || (o == channelLayoutError && layout) || (o == sampleRateError && rate), "a run with unsupported settings is refused with the error of one of its faults");
        hse_check (dl.count (Event::process) == 0 && sl.count (Event::render) == 0 && cl.count (Event::process) == 0 && rec.calls == 0, "no audio is processed when a run is refused");
    }
    hse_obs_u64 ("outcome", o);
}
template <typename T> static void shortRun()
{
    const double d = hse_f64 ("duration"); hse_assume (hse_and (d >= 0, d <= 0.4));
    const size_t defaults = hse_pick ("late", 0, 1);
    Log dl, sl; Table<T> in (1, 4); TableSignal<T> sig (in, &sl); TableDsp<T> dsp (nullptr, &dl);
    auto b = hart::processAudioWith (dsp);
    if (defaults) b.withDuration (d).withSampleRate (8); else b.withSampleRate (8).withDuration (d);
    b.withInputSignal (sig).withBlockSize (2);
    std::unique_ptr<hart::DSP<T>> back; const Outcome o = outcomeOf ([&] { back = b.process(); });
    const int tooShort = d * 8 < 0.5;
    hse_check (hse_implies (tooShort, o == sizeError), "a run shorter than half a frame is refused with a size error");
    hse_check (hse_implies (hse_not (tooShort), o == okay), "a run of half a frame or more is accepted");
    if (o != okay) hse_check (dl.count (Event::process) == 0 && sl.count (Event::render) == 0, "no audio is processed when a run is refused");
    hse_obs_u64 ("outcome", o);
}
// objects that support one layout and rates in a range only: what they are asked about is what the run will do
template <typename T> struct PickyDsp : TableDsp<T>
{
    size_t in, out; double lo, hi;
    PickyDsp (Log* l, size_t i, size_t o, double a, double b) : TableDsp<T> (nullptr, l), in (i), out (o), lo (a), hi (b) {}
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == in && o == out; }
    bool supportsSampleRate (double r) const override { return r >= lo && r <= hi; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<PickyDsp> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<PickyDsp> (std::move (*this)); }
};
template <typename T> struct PickySignal : TableSignal<T>
{
    size_t n; double lo, hi;
    PickySignal (Table<T>& t, Log* l, size_t c, double a, double b) : TableSignal<T> (t, l), n (c), lo (a), hi (b) {}
    bool supportsNumChannels (size_t c) const override { return c == n; }
    bool supportsSampleRate (double r) const override { return r >= lo && r <= hi; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return hart::make_unique<PickySignal> (*this); }
    std::unique_ptr<hart::Signal<T>> move() override { return hart::make_unique<PickySignal> (std::move (*this)); }
};
template <typename T> static void picky()
{
    const size_t in = hse_pick ("in", 1, 3), out = hse_pick ("out", 1, 3), who = hse_pick ("who", 0, 2); Table<T> t (1, 4); Log dl, sl, cl;
    const size_t wantIn = hse_pick ("wantIn", 1, 3), wantOut = hse_pick ("wantOut", 1, 3); bool fits = true; double rate = 3000, lo = 1, hi = 1e6;
    if (wantIn == 1 && wantOut == 2 - (who == 2))
    {   // the sample rates are symbolic for one supported layout
        rate = hse_f64 ("rate"); hse_assume (rate >= 2000); hse_assume (rate <= 4000); lo = hse_f64 ("lo"); hi = hse_f64 ("hi"); hse_assume (lo >= 1000); hse_assume (lo <= 5000); hse_assume (hi >= 1000); hse_assume (hi <= 5000);
    }
    const int rateFits = hse_and (rate >= lo, rate <= hi);
    PickyDsp<T> pd (&dl, wantIn, wantOut, lo, hi), pe (&cl, wantIn, wantOut, lo, hi); PickySignal<T> ps (t, &sl, wantIn, lo, hi); TableDsp<T> anyDsp (nullptr, &dl); TableSignal<T> anySignal (t, &sl);
    if (who == 0) fits = in == wantIn && out == wantOut; else if (who == 1) fits = in == wantIn; else fits = in == wantIn && in == wantOut;
    if (who == 2) anySignal.followedBy (pe);
    Outcome o = outcomeOf ([&]
    {
        hart::AudioTestBuilder<T> b = who == 0 ? hart::processAudioWith (pd) : hart::processAudioWith (anyDsp);
        b.withSampleRate (rate).withBlockSize (4).withDuration (0).withInputChannels (in).withOutputChannels (out);
        b.withDuration (0.0005); if (who == 1) b.withInputSignal (ps); else b.withInputSignal (anySignal);
        b.process();
    });
    hse_check (hse_implies (hse_and (fits, rateFits), o == okay), "a layout and sample rate that every object supports are accepted");
    if (! fits) hse_check (hse_or (o == channelLayoutError, hse_and (hse_not (rateFits), o == sampleRateError)), "a layout that the DSP, the signal or an effect of its chain does not support is refused with its error");
    else hse_check (hse_implies (hse_not (rateFits), o == sampleRateError), "a sample rate that the DSP, the signal or an effect of its chain does not support is refused with its error");
    if (o != okay) hse_check (dl.count (Event::process) == 0 && sl.count (Event::render) == 0 && cl.count (Event::process) == 0, "no audio is processed when a run is refused");
    hse_obs_u64 ("outcome", o);
}
template <typename T> static void go (int m) { if (m == 0) setters<T>(); else if (m == 1) faults<T>(); else if (m == 2) shortRun<T>(); else picky<T>(); }
extern "C" void hse_main (void) { const int m = (int) hse_pick ("mode", 0, 3); if (hse_pick ("type", 0, 1)) go<float> (m); else go<double> (m); }
