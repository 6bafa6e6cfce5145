// Stand-in for the vendored dependencies/CLI11 (third-party), symbolic build only: the subset HART binds options with.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <stdexcept>
#include <sstream>

namespace CLI {

struct ParseError { std::string what; int code; int get_exit_code() const { return code; } };

inline bool hse_assign (std::string& d, const std::string& s) { d = s; return true; }
template <typename T> inline typename std::enable_if<std::is_integral<T>::value, bool>::type hse_assign (T& d, const std::string& s)
{
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
    if (i >= s.size()) return false;
    unsigned long long v = 0;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (unsigned) (s[i] - '0'); }
    if (neg && std::is_unsigned<T>::value) return false;
    d = (T) (neg ? 0 - v : v);
    return true;
}
inline std::string hse_text (const std::string& s) { return s; }
inline std::string hse_text (const char* s) { return s; }
template <typename T> inline std::string hse_text (const T& v) { std::stringstream o; o << v; return o.str(); }

struct Validator { std::function<bool (const std::string&)> ok; };
inline double hse_number (const std::string& s, bool* good) { size_t i = 0; bool neg = false; double v = 0, f = 1; bool dot = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } *good = i < s.size(); for (; i < s.size(); ++i) { if (s[i] == '.' && ! dot) { dot = true; continue; } if (s[i] < '0' || s[i] > '9') { *good = false; return 0; } v = v * 10 + (s[i] - '0'); if (dot) f *= 10; } return neg ? -v / f : v / f; }
struct Range : Validator { template <typename T> Range (T lo, T hi, const std::string& = "") { const double l = (double) lo, h = (double) hi; ok = [l, h] (const std::string& s) { bool g; const double v = hse_number (s, &g); return g && v >= l && v <= h; }; } template <typename T> explicit Range (T hi, const std::string& = "") : Range ((T) 0, hi) {} };
static const Range NonNegativeNumber (0.0, 1.7976931348623157e308), PositiveNumber (4.9e-324, 1.7976931348623157e308);
struct Any : Validator { Any() { ok = [] (const std::string&) { return true; }; } };
static const Any ExistingDirectory, ExistingPath, ExistingFile;

class Option
{
public:
    std::vector<std::string> names; bool flag = false; std::function<bool (const std::string&)> set; size_t seen = 0;
    template <typename T> Option* default_val (const T& v) { set (hse_text (v)); return this; }
    Option* default_str (const std::string&) { return this; }
    Option* capture_default_str() { return this; }
    Option* group (const std::string&) { return this; }
    Option* required (bool = true) { return this; }
    Option* expected (int) { return this; }
    Option* envname (const std::string&) { return this; }
    Option* type_name (const std::string&) { return this; }
    Option* ignore_case (bool = true) { return this; }
    Option* always_capture_default (bool = true) { return this; }
    template <typename V> Option* transform (V) { return this; }
    Option* description (const std::string&) { return this; }
    std::vector<Validator> checks;
    Option* check (const Validator& v, const std::string& = "") { checks.push_back (v); return this; }
    size_t count() const { return seen; }
};

class App
{
    std::vector<std::unique_ptr<Option>> opts;
    Option* make (const std::string& names)
    {
        opts.emplace_back (new Option()); Option* o = opts.back().get();
        std::string cur;
        for (size_t i = 0; i <= names.size(); ++i)
            if (i == names.size() || names[i] == ',') { o->names.push_back (cur); cur.clear(); } else if (names[i] != ' ') cur += names[i];
        return o;
    }
    Option* find (const std::string& n) { for (auto& o : opts) for (auto& m : o->names) if (m == n) return o.get(); return nullptr; }
public:
    explicit App (std::string = "", std::string = "") {}
    template <typename T> Option* add_option (std::string names, T& var, std::string = "", bool = false)
    { Option* o = make (names); T* p = &var; o->set = [p] (const std::string& s) { return hse_assign (*p, s); }; return o; }
    template <typename T> Option* add_flag (std::string names, T& var, std::string = "")
    { Option* o = make (names); o->flag = true; T* p = &var; o->set = [p] (const std::string& s) { *p = (T) (s == "true"); return true; }; return o; }
    void parse (int argc, const char* const* argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i], val; bool hasVal = false;
            if (a.size() > 2 && a[0] == '-' && a[1] == '-') { size_t e = a.find ('='); if (e != std::string::npos) { val = a.substr (e + 1); a = a.substr (0, e); hasVal = true; } }
            Option* o = find (a);
            if (! o) throw ParseError { "The following argument was not expected: " + a, 109 };
            ++o->seen;
            if (o->flag) { if (! o->set (hasVal ? val : std::string ("true"))) throw ParseError { "flag", 104 }; continue; }
            if (! hasVal) { if (i + 1 >= argc) throw ParseError { a + " requires a value", 114 }; val = argv[++i]; }
            for (auto& c : o->checks) if (! c.ok (val)) throw ParseError { a + ": " + val + " not in range", 105 };
            if (! o->set (val)) throw ParseError { "Could not convert: " + a + " = " + val, 104 };
        }
    }
    int exit (const ParseError& e) { return e.code; }
};
}
#define CLI11_PARSE(app, argc, argv) try { (app).parse ((argc), (argv)); } catch (const CLI::ParseError& e) { return (app).exit (e); }
