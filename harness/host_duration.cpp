// BOUND: duration symbolic (every double in the range) up to 3.4 frames at sample rate 8 Hz, 44.1 kHz, 48 kHz or 96 kHz; block size 1..3; also durations symbolic within 0.4999 frame around 4 long runs of up to 960000 frames
// ASSUME: the duration is not within 0.01 frame of a rounding tie
#include "probes.hpp"
// the number of frames of a long run, without running it: the signal stops the test at the first block, which is the whole run
struct Stop { size_t frames; };
struct Stopper : hart::Signal<float>
{
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<float>& out) override { throw Stop { out.getNumFrames() }; }
    void reset() override {}
    void represent (std::ostream& s) const override { s << "Stopper()"; }
    std::unique_ptr<hart::Signal<float>> copy() const override { return hart::make_unique<Stopper> (*this); }
    std::unique_ptr<hart::Signal<float>> move() override { return hart::make_unique<Stopper> (std::move (*this)); }
};
static void longRun()
{
    static const struct { double rate, frames; } runs[] = { { 1000, 40000 }, { 192000, 960000 }, { 44100, 65536 }, { 22050, 262145 } };
    const auto& r = runs[hse_pick ("run", 0, 3)];
    const double frames = r.frames;
    const double duration = hse_f64 ("duration");
    // a whole number of frames give or take 0.4999 of a frame
    hse_assume (duration >= (frames - 0.4999) / r.rate); hse_assume (duration <= (frames + 0.4999) / r.rate);
    size_t n = 0;
    try { hart::processAudioWith (TableDsp<float> (nullptr, nullptr)).withSampleRate (r.rate).withBlockSize (4000000).withDuration (duration).withInputSignal (Stopper()).process(); }
    catch (const Stop& s) { n = s.frames; }
    hse_check (n == (size_t) frames, "a long run has the number of frames nearest to its duration");
    hse_obs_u64 ("long", n);
}
extern "C" void hse_main (void)
{
    if (hse_pick ("long", 0, 1)) { longRun(); return; }
    const double rates[4] = { 8, 44100, 48000, 96000 };
    const double rate = rates[hse_pick ("rate", 0, 3)];
    const size_t block = hse_pick ("block", 1, 3);
    const double duration = hse_f64 ("duration");
    hse_assume (duration >= 0); hse_assume (duration <= 3.4 / rate);
    Table<float> in (1, 6);
    Log sl, dl;
    TableSignal<float> sig (in, &sl);
    for (auto& x : in.v) x = 0;
    const Outcome o = outcomeOf ([&] { hart::processAudioWith (TableDsp<float> (nullptr, &dl)).withSampleRate (rate).withBlockSize (block).withDuration (duration).withInputSignal (sig).process(); });
    hse_check (o == okay || o == sizeError, "a valid duration is accepted, or rejected with SizeError when there is no whole frame in it");
    if (o == sizeError) { hse_check (duration < 0.51 / rate, "only durations under half a frame are refused"); hse_check (dl.ev.empty(), "nothing runs when the test is refused"); return; }
    size_t n = 0;
    for (auto& e : dl.ev) if (e.kind == Event::process) { hse_check (e.c <= block, "no block is larger than the block size"); n += e.c; }
    // n frames were processed: the duration has to be nearest to n frames
    hse_check (duration < ((double) n + 0.51) / rate, "not fewer frames than the duration asks for");
    hse_check (n == 0 || duration > ((double) n - 0.51) / rate, "not more frames than the duration asks for");
    hse_obs_u64 ("n", n);
}
