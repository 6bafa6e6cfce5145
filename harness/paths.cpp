// BOUND: classification and joining: every path of 0..4 (thorough 6) arbitrary bytes and every data root of 1..3 letters, or none given; reading a wav file, saving the output and saving a plot: 4 relative and absolute paths x 4 data roots with a file of the same name in every other place, every sample symbolic; empty save paths; float and double
// ASSUME: CLI11 and signalsmith/plot are stand-ins in the symbolic build (replays use the real CLI11); files live in an in-memory file system (replays: real files in a scratch directory); a path starting with a backslash names a file in the current directory, as on Linux
#include "wav_bytes.hpp"
#include "probes.hpp"
static void pure()
{
    enum { LEN = HSE_TIER == 1 ? 4 : 6 };
    std::string path, root = "."; const size_t n = hse_pick ("length", 0, LEN), r = hse_pick ("rootLength", 0, 3);
    for (size_t i = 0; i < n; ++i) path += (char) hse_u8 ("char");
    if (r) { root.clear(); for (size_t i = 0; i < r; ++i) root += (char) hse_u64 ("letter", 'a', 'z'); hse_check (hse_cli ({ "-d", root }) == 0, "a data root is accepted"); }
    const int absolute = n > 0 && hse_or (path[0] == '/', path[0] == '\\');
    hse_check (hart::isAbsolutePath (path) == (absolute != 0), "a path is absolute exactly if it starts with a slash or backslash");
    const std::string got = hart::toAbsolutePath (path), want = absolute ? path : root + "/" + path;
    hse_check (got.size() == want.size(), "an absolute path is kept, any other path is the data root, a slash and the path");
    int same = 1; for (size_t i = 0; i < want.size() && i < got.size(); ++i) same = hse_and (same, got[i] == want[i]);
    hse_check (same, "an absolute path is kept, any other path is the data root, a slash and the path");
    hse_obs_u64 ("size", got.size());
}
static const char* const places[] = { "a.wav", "deep/a.wav", "sub/a.wav", "sub/deep/a.wav", "\\a.wav", "sub/\\a.wav", "sub/sub/a.wav" };
enum { PLACES = 7 };
static void put (const char* name, float v) { WavBytes w (1, 8, 32, true, 4); union { float f; uint32_t u; } x; x.f = v; w.u32 (x.u); w.save (name); }
template <typename T> static void use()
{
    const int what = (int) hse_pick ("what", 0, 2), ri = (int) hse_pick ("root", 0, 3), pi = (int) hse_pick ("path", 0, 3);
    for (const char* d : { "sub", "deep", "sub/deep", "sub/sub" }) hse_make_dir (d);
    const std::string top = hse_scratch_dir();
    const std::string root = ri == 0 ? "." : ri == 1 ? "sub" : ri == 2 ? "./sub" : top + "/sub";
    const std::string path = pi == 0 ? "a.wav" : pi == 1 ? "deep/a.wav" : pi == 2 ? "\\a.wav" : top + "/deep/a.wav";
    if (ri) hse_check (hse_cli ({ "--data-root-path", root }) == 0, "a data root is accepted");
    const int place = pi == 2 ? 4 : pi == 3 ? 1 : (ri ? 2 : 0) + pi;
    const T x = H<T>::sym ("x"); hse_assume (hse_and (x >= 0, x <= 1));
    if (what == 0)
    {
        for (int i = 0; i < PLACES; ++i) if (i != place) put (places[i], -1); put (places[place], (float) x);
        T got = -2; const Outcome o = outcomeOf ([&] { hart::WavFile<T> w (path); w.prepareWithDSPChain (8, 1, 1); hart::AudioBuffer<T> b (1, 1); w.renderNextBlockWithDSPChain (b); got = b[0][0]; });
        hse_check (o == okay && got == (T) (float) x, "a wav file is read from its path below the data root, or from its absolute path");
        return;
    }
    Table<T> in (1, 1), out (1, 1); out.v[0] = x; const int mode = (int) hse_pick ("mode", 0, 1); const bool fails = hse_pick ("fails", 0, 1);
    auto b = hart::processAudioWith (TableDsp<T> (&out, nullptr)); b.withSampleRate (8).withDuration (0.125).withBlockSize (1).withInputSignal (TableSignal<T> (in)).expectTrue (LimitMatcher<T> (true, (T) (fails ? -1 : 2), "m"));
    const hart::Save m = mode ? hart::Save::always : hart::Save::whenFails; const bool saved = mode || fails;
    if (what == 1) b.saveOutputTo (path, m, hart::WavFormat::float32).savePlotTo ("", hart::Save::always); else b.savePlotTo (path, m).saveOutputTo ("", hart::Save::always);
    const Outcome o = outcomeOf ([&] { b.process(); }); hart::ExpectationFailureMessages::clear();
    hse_check (o == okay, "saving works below the data root and to absolute paths");
    auto& plots = signalsmith::plot::HsePlotLog::get();
    hse_check (plots.size() == (what == 2 && saved ? 1u : 0u), "a plot is saved exactly when asked, and an empty path saves nothing");
    for (int i = 0; i < PLACES; ++i) hse_check (hse_file_exists (places[i]) == (what == 1 && saved && i == place), "the audio is saved to its path below the data root, or to its absolute path, and nowhere else");
    if (what == 2 && saved && plots.size() == 1) hse_check (plots[0].path == (pi >= 2 ? path : root + "/" + path), "the plot is saved to its path below the data root, or to its absolute path");
    if (what == 1 && saved && hse_file_exists (places[place]))
    {   // what was saved is read back under the same path
        T got = -2; const Outcome o2 = outcomeOf ([&] { hart::WavFile<T> w (path); w.prepareWithDSPChain (8, 1, 1); hart::AudioBuffer<T> buf (1, 1); w.renderNextBlockWithDSPChain (buf); got = buf[0][0]; });
        hse_check (o2 == okay && got == (T) (float) x, "saved audio is read back under the same path");
    }
}
extern "C" void hse_main (void) { const int part = (int) hse_pick ("part", 0, 2); if (part == 0) pure(); else if (part == 1) use<float>(); else use<double>(); }
