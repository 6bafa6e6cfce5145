// BOUND: 0..3 tests and 0..2 generators (thorough 0..4 and 0..3), behaviours (passes, failed expectation, two failed expectations, failed assertion, both, fail macro, missing configuration, failures without a message) chosen by symbolic data inside the tasks, shuffling with seeds 0..1 (thorough 0..5), 12 and 14 tests (two of them symbolic); 20, 40, 128, 255, 256, 257 and 512 tests of which all (but perhaps one) fail or pass, duplicate names of both kinds, messages left over before the run
// ASSUME: tasks end normally or with the two exception types the runner handles; runAll() is called once
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXT = 3, MAXG = 2, SEEDS = 2 };
#else
enum { MAXT = 4, MAXG = 3, SEEDS = 6 };
#endif
static std::vector<int> order; static int behaviour[8];
static std::string tag (int i, const char* k) { return std::string ("<") + k + std::to_string (i) + ">"; }
template <int I> static void task()
{
    order.push_back (I);
    const float level = hse_f32 ("level"); hse_assume (hse_and (level >= 0, level <= (I % 4 == 2 ? 4.5f : 7.0f)));   // the task's own data decides what happens
    int& b = behaviour[I]; b = 0;
    if (level < 2.5f) return;
    auto& messages = hart::ExpectationFailureMessages::get();
    if (level < 3) { b = 1; messages.emplace_back (tag (I, "e")); return; }
    if (level < 4) { b = 2; messages.emplace_back (tag (I, "e")); messages.emplace_back (tag (I, "f")); return; }
    if (level < 5) { b = 3; throw hart::TestAssertException (tag (I, "a")); }
    if (level < 6) { b = 4; messages.emplace_back (tag (I, "e")); throw hart::TestAssertException (tag (I, "a")); }
    if (level < 6.5f) { b = 5; throw hart::ConfigurationError (tag (I, "a")); }
    b = 6; if (level < 6.75f) throw hart::ConfigurationError (""); throw hart::TestAssertException ("");   // nothing to say
}
typedef void (*Fn)(); static const Fn fns[8] = { &task<0>, &task<1>, &task<2>, &task<3>, &task<4>, &task<5>, &task<6>, &task<7> };
static size_t times (const std::string& t, const std::string& w) { size_t n = 0, p = 0; while ((p = t.find (w, p)) != std::string::npos) { ++n; p += w.size(); } return n; }
// more tasks, among them two whose behaviour is symbolic; behaviour of the others by pattern
static std::vector<int> manyOrder; static int manyKind[16]; static int manyPattern;
template <int I> static void manyTask()
{
    manyOrder.push_back (I); int k = (I * (1 + manyPattern) + manyPattern) % 4;
    if (I == 3 || I == 10) { const float level = hse_f32 ("level"); hse_assume (hse_and (level >= 0, level <= 3)); k = level < 1 ? 0 : level < 2 ? 1 : 2; }
    auto& messages = hart::ExpectationFailureMessages::get(); manyKind[I] = 3;
    if (k == 1) { manyKind[I] = 1; messages.emplace_back (tag (I, "e")); } else if (k == 2) { manyKind[I] = 2; throw hart::TestAssertException (tag (I, "a")); }
}
template <int N> struct Adder { static void add (hart::TestRegistry& r, int n) { Adder<N - 1>::add (r, n); if (N <= n) r.add ("many" + std::to_string (N - 1) + "!", "", hart::TaskCategory::test, &manyTask<N - 1>); } };
template <> struct Adder<0> { static void add (hart::TestRegistry&, int) {} };
static void many()
{
    const int n = hse_pick ("count", 0, 1) ? 14 : 12; manyPattern = (int) hse_pick ("pattern", 0, 3); const bool shuffle = hse_pick ("shuffle", 0, 1); std::vector<std::string> args; if (shuffle) args = { "--shuffle", "--seed", "5" }; hse_cli (args);
    hart::TestRegistry& r = hart::TestRegistry::getInstance(); Adder<16>::add (r, n); hse_cout_clear(); const int code = r.runAll(); const std::string t = hse_cout_text();
    hse_check ((int) manyOrder.size() == n, "as many tasks run as there are of the requested kind"); if ((int) manyOrder.size() != n) return;
    int failed = 0; for (int i = 0; i < n; ++i)
    {
        int c = 0; for (int x : manyOrder) c += x == i; hse_check (c == 1, "every registered task runs exactly once"); if (! shuffle) hse_check (manyOrder[i] == i, "tasks run in registration order");
        const std::string name = "many" + std::to_string (i) + "!"; const bool bad = manyKind[i] == 1 || manyKind[i] == 2; failed += bad;
        hse_check (hse_has (t, name + " - failed") == bad, "a task is reported as failed exactly when it failed"); hse_check (hse_has (t, name + " - passed") == ! bad, "a task is reported as passed exactly when it passed");
        hse_check (times (t, tag (i, "e")) == (size_t) (manyKind[i] == 1) && times (t, tag (i, "a")) == (size_t) (manyKind[i] == 2), "every message is printed once");
    }
    hse_check (((code & 255) == 0) == (failed == 0), "the exit code is zero exactly when nothing failed");
    hse_check (hse_has (t, "[ PASSED ] " + std::to_string (n - failed) + "/" + std::to_string (n)), "the number of passed tasks is printed"); hse_check (hse_has (t, "[ FAILED ] " + std::to_string (failed) + "/" + std::to_string (n)) == (failed != 0), "the number of failed tasks is printed when there are any");
    hse_obs_u64 ("failed", (uint64_t) failed);
}
static size_t crowdRan = 0; static bool crowdPasses = false;
static void crowdTask()
{
    ++crowdRan; bool one = false; if (crowdRan == 5) { const float level = hse_f32 ("level"); hse_assume (hse_and (level >= 0, level <= 3)); if (level < 1) { --behaviour[0]; return; } one = true; }
    if (crowdPasses && ! one) { --behaviour[0]; return; }
    if (crowdRan % 2) hart::ExpectationFailureMessages::get().emplace_back ("<e>"); else throw hart::TestAssertException ("<a>");
}
static void crowd()
{
    static const int sizes[7] = { 20, 40, 128, 255, 256, 257, 512 }; crowdPasses = hse_pick ("othersPass", 0, 1); const int n = sizes[hse_pick ("count", 0, 6)]; hse_cli ({}); behaviour[0] = n;
    hart::TestRegistry& r = hart::TestRegistry::getInstance(); for (int i = 0; i < n; ++i) r.add ("crowd" + std::to_string (i), "", hart::TaskCategory::test, &crowdTask);
    hse_cout_clear(); const int code = r.runAll(); const int failed = behaviour[0];
    hse_check ((int) crowdRan == n, "as many tasks run as there are of the requested kind");
    hse_check (((code & 255) == 0) == (failed == 0), "the exit code is zero exactly when nothing failed");
    const std::string t = hse_cout_text(); hse_check (hse_has (t, "[ FAILED ] " + std::to_string (failed) + "/" + std::to_string (n)) == (failed != 0), "the number of failed tasks is printed when there are any");
    hse_check (hse_has (t, "[ PASSED ] " + std::to_string (n - failed) + "/" + std::to_string (n)), "the number of passed tasks is printed");
    hse_obs_u64 ("failed", (uint64_t) failed);
}
extern "C" void hse_main (void)
{
    const size_t many_ = hse_pick ("many", 0, 2); if (many_ == 1) { many(); return; } if (many_ == 2) { crowd(); return; }
    const size_t nt = hse_pick ("tests", 0, MAXT), ng = hse_pick ("generators", 0, MAXG); const bool gen = hse_pick ("mode", 0, 1), shuffle = (gen ? ng : nt) > 1 && hse_pick ("shuffle", 0, 1), dup = hse_pick ("duplicate", 0, 1), left = hse_pick ("leftovers", 0, 1);
    if ((gen ? ng : nt) > 2 && (dup || left)) return;   // covered by the smaller runs
    std::vector<std::string> args; if (gen) args.push_back ("-g"); if (shuffle) { args.push_back ("--shuffle"); args.push_back ("--seed"); args.push_back (std::to_string (hse_pick ("seed", 0, SEEDS - 1))); }
    hse_check (hse_cli (args) == 0, "the settings are accepted");
    hart::TestRegistry& r = hart::TestRegistry::getInstance();
    // tests and generators registered alternately; generator i and test i share their name
    for (size_t i = 0; i < (nt > ng ? nt : ng); ++i)
    {
        const std::string name = std::string ("task") + std::to_string (i) + "!";
        if (i < nt) hse_check (outcomeOf ([&] { r.add (name, "", hart::TaskCategory::test, fns[i]); }) == okay, "a test can be registered");
        if (i < ng) hse_check (outcomeOf ([&] { r.add (name, "", hart::TaskCategory::generate, fns[4 + i]); }) == okay, "a generator may have the name of a test");
    }
    if (dup && nt) hse_check (outcomeOf ([&] { r.add ("task0!", "x", hart::TaskCategory::test, fns[7]); }) == valueError, "registering a duplicate test name is refused");
    if (dup && ng) hse_check (outcomeOf ([&] { r.add ("task0!", "x", hart::TaskCategory::generate, fns[7]); }) == valueError, "registering a duplicate generator name is refused");
    if (left) hart::ExpectationFailureMessages::get().emplace_back ("<stale>");
    hse_cout_clear();
    const int code = r.runAll();
    const std::string t = hse_cout_text();
    const size_t n = gen ? ng : nt; const int base = gen ? 4 : 0;
    hse_check (order.size() == n, "as many tasks run as there are of the requested kind");
    if (order.size() != n) return;
    for (size_t i = 0; i < n; ++i) { size_t c = 0; for (int x : order) c += x == base + (int) i; hse_check (c == 1, "every registered task runs exactly once"); if (! shuffle) hse_check (order[i] == base + (int) i, "tasks run in registration order"); }
    size_t failed = 0, at = 0;
    for (size_t i = 0; i < n; ++i)
    {
        const int id = order[i], b = behaviour[id]; const std::string name = std::string ("task") + std::to_string (id - base) + "!";
        const size_t ok = t.find (name + " - passed", at), bad = t.find (name + " - failed", at);
        hse_check ((b != 0) == (bad != std::string::npos), "a task is reported as failed exactly when it failed");
        hse_check ((b == 0) == (ok != std::string::npos), "a task is reported as passed exactly when it passed");
        failed += b != 0;
        const size_t from = b ? bad : ok; if (from == std::string::npos) return;
        const size_t end = i + 1 < n ? t.find ("Running task", from) : t.size(); const std::string mine = t.substr (from, end - from);
        hse_check (hse_has (mine, tag (id, "e")) == (b == 1 || b == 2 || b == 4), "messages of failed expectations are in the report of their task");
        hse_check (hse_has (mine, tag (id, "f")) == (b == 2), "every message of a task is printed");
        hse_check (hse_has (mine, tag (id, "a")) == (b >= 3 && b <= 5), "the message of a failed assertion is in the report of its task");
        hse_check (times (t, tag (id, "e")) <= 1 && times (t, tag (id, "f")) <= 1 && times (t, tag (id, "a")) <= 1, "no message is printed for another task");
        at = from;
    }
    hse_check (! hse_has (t, "<stale>"), "messages from before a task are not its own");
    hse_check (((code & 255) == 0) == (failed == 0), "the exit code is zero exactly when nothing failed");
    if (n == 0) { hse_check (hse_has (t, "Nothing to run!"), "an empty run says so"); return; }
    hse_check (hse_has (t, std::string ("[ PASSED ] ") + std::to_string (n - failed) + "/" + std::to_string (n)), "the number of passed tasks is printed");
    hse_check (hse_has (t, std::string ("[ FAILED ] ") + std::to_string (failed) + "/" + std::to_string (n)) == (failed != 0), "the number of failed tasks is printed when there are any");
    hse_obs_u64 ("failed", failed); hse_obs_u64 ("code", (uint64_t) code);
}
