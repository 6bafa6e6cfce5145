// BOUND: a file with four tests and two generators declared by the macros; every combination of an optional assertion, two expectations, an audio check and a fail macro inside one test, over all finite symbolic values; data root absent, "." by default or empty; either run mode
// ASSUME: CLI11 is a stand-in in the symbolic build; a source line holds at most one declaration
#include "matchers.hpp"
static std::vector<std::string> trace;
static int plan, kind; static bool after[6], truthA, truthB, truthC, dataNeeded;
static int earlyLine = -1; static int lineA, lineB, lineC, lineF;
static int evaluated[3]; static bool counted (int which, bool v) { ++evaluated[which]; return v; }
HART_TEST ("one")
{
    trace.push_back ("one");
    const double x = hse_f64 ("x"), y = hse_f64 ("y"); hse_assume (hse_and (x == x, y == y));
    if (plan & 1) { lineA = __LINE__ + 1; truthA = x < y;
        HART_ASSERT_TRUE (counted (0, x < y)); }
    after[0] = true;
    if (plan & 2) { lineB = __LINE__ + 1; truthB = x + 1 > y;
        HART_EXPECT_TRUE (counted (1, x + 1 > y)); }
    after[1] = true;
    if (plan & 4) { lineC = __LINE__ + 1; truthC = x != 0 || y == 2;
        HART_EXPECT_TRUE (x != 0 || counted (2, y == 2)); }
    after[2] = true;
    if (plan & 8) { lineF = __LINE__ + 1;
        HART_FAIL_TEST(); }
    if (plan & 16) { lineF = __LINE__ + 1;
        HART_FAIL_TEST_MSG ("because of this"); }
    after[3] = true;
}
HART_TEST_WITH_TAGS ("two", "[slow][wav]") { trace.push_back ("two"); if (plan == 2) { earlyLine = __LINE__; HART_EXPECT_TRUE (plan == 3); } HART_REQUIRES_DATA_PATH_ARG; after[4] = true; }
HART_GENERATE ("three") { trace.push_back ("three"); HART_REQUIRES_DATA_PATH_ARG
    after[5] = true; }
HART_TEST ("four") { trace.push_back ("four"); HART_ASSERT_TRUE (true); HART_EXPECT_TRUE (1 + 1 == 2); }
HART_GENERATE_WITH_TAGS ("five", "[x]") { trace.push_back ("five"); for (int i = 0; i < 12; ++i) HART_EXPECT_TRUE (plan == 0);
    HART_ASSERT_TRUE (plan != 1); trace.push_back ("five went on"); }
HART_TEST ("five") { trace.push_back ("the test named five"); }
static int runMain (int argc, const char** argv) { HART_RUN_ALL_TESTS (argc, argv) return -1; }
static size_t times (const std::string& t, const std::string& w) { size_t n = 0, p = 0; while ((p = t.find (w, p)) != std::string::npos) { ++n; p += w.size(); } return n; }
extern "C" void hse_main (void)
{
    const bool gen = hse_pick ("generators", 0, 1); const size_t root = hse_pick ("root", 0, 2);   // the default, empty, given
    plan = (int) (gen ? hse_pick ("plan", 0, 2) : hse_pick ("plan", 0, 23));
    if ((plan & 24) == 24 || (root && plan > 3)) return;
    hse_check (trace.empty(), "declaring tests runs nothing");
    std::vector<const char*> argv { "tests" };
    if (gen) argv.push_back (hse_pick ("short", 0, 1) ? "-g" : "--run-generators");
    if (root) { argv.push_back ("--data-root-path"); argv.push_back (root == 1 ? "" : "data"); }
    const bool wrong = plan == 0 && ! gen && hse_pick ("wrong", 0, 1); if (wrong) argv.push_back ("--no-such-option");
    hse_cout_clear();
    const int code = runMain ((int) argv.size(), argv.data());
    const std::string t = hse_cout_text();
    if (wrong) { hse_check (code != 0, "an unknown option makes the program fail"); hse_check (trace.empty(), "an unknown option runs nothing"); return; }
    const std::vector<std::string> want = gen ? (plan != 1 ? std::vector<std::string> { "three", "five", "five went on" } : std::vector<std::string> { "three", "five" }) : std::vector<std::string> { "one", "two", "four", "the test named five" };
    hse_check (trace == want, gen ? "generators run in order, and stop at a failed assertion" : "declared tests run once, in the order of the file");
    auto verdict = [&] (const char* name, bool fails, const char* msg) { hse_check (hse_has (t, std::string (name) + (fails ? " - failed" : " - passed")) && ! hse_has (t, std::string (name) + (fails ? " - passed" : " - failed")), msg); };
    const std::string missing = "data path set by the --data-root-path";
    if (gen)
    {
        verdict ("three", root == 1, "a generator needing a data root fails exactly without one"); hse_check (after[5] == (root != 1), "nothing after a missing data root runs");
        verdict ("five", plan != 0, "a generator fails exactly when a check in it does");
        hse_check (code == (plan != 0 || root == 1), "the program's result tells whether a generator failed");
        hse_check (times (t, "HART_EXPECT_TRUE() failed") == (size_t) (plan != 0 ? 12 : 0) && hse_has (t, "HART_ASSERT_TRUE() failed") == (plan == 1), "generators report their failed checks");
        return;
    }
    const bool a = (plan & 1) && ! truthA, run = ! a, b = run && (plan & 2) && ! truthB, c = run && (plan & 4) && ! truthC, f = run && (plan & 24);
    hse_check (after[0] == run && after[1] == run && after[2] == run, "only a failed assertion stops the test, a failed expectation does not");
    hse_check (after[3] == (run && ! f), "a fail macro stops the test");
    verdict ("one", a || b || c || f, "a test fails exactly when an assertion or expectation in it is false or it fails itself");
    auto at = [&] (const char* what, int line, const char* detail) { return std::string (what) + " at line " + std::to_string (line) + detail; };
    hse_check (times (t, at ("HART_ASSERT_TRUE() failed", lineA, ": \"counted (0, x < y)\"")) == (size_t) a && times (t, "HART_ASSERT_TRUE() failed") == (size_t) a, "a failed assertion is reported once with its line and condition");
    hse_check (times (t, at ("HART_EXPECT_TRUE() failed", lineB, ": \"counted (1, x + 1 > y)\"")) == (size_t) b, "a failed expectation is reported once with its line and condition");
    hse_check (times (t, at ("HART_EXPECT_TRUE() failed", lineC, ": \"x != 0 || counted (2, y == 2)\"")) == (size_t) c && times (t, "HART_EXPECT_TRUE() failed") == (size_t) b + (size_t) c + (size_t) (plan == 2), "every failed expectation is reported once with its line and condition");
    hse_check (times (t, at ("triggered test fail", lineF, "")) == (size_t) f, "a fail macro reports its line");
    hse_check (times (t, "because of this") == (size_t) (f && (plan & 16)), "a fail macro reports its message");
    hse_check (evaluated[0] == (plan & 1) && evaluated[1] == (run && (plan & 2)) && evaluated[2] <= (run && (plan & 4)), "a condition is evaluated exactly once");
    hse_check (times (t, at ("HART_EXPECT_TRUE() failed", earlyLine, ": \"plan == 3\"")) == (size_t) (plan == 2), "failures from before a missing data root are still reported");
    verdict ("two", root == 1 || plan == 2, "a test needing a data root fails exactly without one"); hse_check (after[4] == (root != 1), "nothing after a missing data root runs"); hse_check (hse_has (t, missing) == (root == 1), "a missing data root is reported");
    verdict ("four", false, "true conditions do not fail a test"); verdict ("five", false, "a test may share its name with a generator");
    hse_check (code == (int) (a || b || c || f || root == 1 || plan == 2), "the program's result tells whether anything failed");
    hse_obs_u64 ("code", (uint64_t) code);
}
