// BOUND: plots of 1..3 x 1..3 channels and 1..4 (thorough 6) frames, every sample symbolic (all floats and doubles), block sizes 1..3, sample rates 1 / 8 / 44100 / 192000 Hz, fixed runs of 3 frames on 17 and 128 channels, of 120 frames (thorough 400) and one of 2500 (thorough 20000)
// ASSUME: signalsmith/plot is a recording stand-in (the drawing itself is third-party)
#include "probes.hpp"
typedef signalsmith::plot::HsePlotLog Plots;
template <typename T> static void cell (const signalsmith::plot::HsePlotRecord& r, int row, Table<T>& want, double rate, const char* which)
{
    const signalsmith::plot::Cell* cell = nullptr; size_t found = 0;
    for (auto& c : r.cells) if (c.first.first == 0 && c.first.second == row) { cell = c.second; ++found; }
    hse_check (found == 1 && cell->plots.size() == 1, row ? "there is one diagram of the output" : "there is one diagram of the input"); if (found != 1 || cell->plots.size() != 1) return;
    auto& lines = cell->plots[0]->lines;
    hse_check (lines.size() == want.channels, row ? "the output has one line per channel" : "the input has one line per channel"); if (lines.size() != want.channels) return;
    for (size_t c = 0; c < want.channels; ++c)
    {
        auto& p = lines[c]->points;
        hse_check (p.size() == want.frames, row ? "every output line has one point per frame" : "every input line has one point per frame"); if (p.size() != want.frames) return;
        for (size_t f = 0; f < want.frames; ++f)
        {
            hse_check (hse_eqv ((double) want.at (c, f), p[f].y), row ? "the points show the output samples" : "the points show the input samples");
            const double t = (double) f / rate;
            hse_check (hse_near (p[f].x, t, 1e-6 / rate), row ? "the output points are at the times of their frames" : "the input points are at the times of their frames");
        }
    }
    (void) which;
}
template <typename T> static void run()
{
    const size_t length = hse_pick ("long", 0, 3); const bool fixed = length != 0;
    const size_t ni = length == 3 ? 17 : length == 2 ? 1 : hse_pick ("in", 1, 3), no = length == 3 ? 128 : length == 2 ? 2 : hse_pick ("out", 1, 3), frames = length == 3 ? 3 : length == 2 ? (HSE_TIER == 1 ? 2500 : 20000) : fixed ? (HSE_TIER == 1 ? 120 : 400) : hse_pick ("frames", 1, HSE_TIER == 1 ? 4 : 6);
    const double rates[4] = { 1, 8, 44100, 192000 }, rate = length == 2 ? 44100 : rates[hse_pick ("rate", 0, 3)];
    Table<T> in (ni, frames), out (no, frames);
    if (fixed) { for (size_t i = 0; i < in.v.size(); ++i) in.v[i] = (T) (0.001 * (double) (i % 97)); for (size_t i = 0; i < out.v.size(); ++i) out.v[i] = (T) (0.002 * (double) (i % 89) - 0.1); }
    else { in.fill ("in"); out.fill ("out"); }
    const size_t block = 1 + (ni + no + frames) % 3;
    TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr);
    auto b = hart::processAudioWith (dsp); b.withSampleRate (rate).withBlockSize (fixed ? 50 : block).withDuration ((double) frames / rate).withInputChannels (ni).withOutputChannels (no).withInputSignal (sig);
    b.savePlotTo ("plot.svg");
    const Outcome o = outcomeOf ([&] { b.process(); });
    hse_check (o == okay && Plots::get().size() == 1, "a plot is saved"); if (Plots::get().size() != 1) return;
    cell (Plots::get()[0], 0, in, rate, "input"); cell (Plots::get()[0], 1, out, rate, "output");
    H<T>::obs ("first", in.v[0]); hse_obs_f64 ("time", Plots::get()[0].cells[0].second->plots[0]->lines.back()->points.back().x);
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
