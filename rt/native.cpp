// Native side of the harness API: feeds the recorded inputs to the harness, which runs the real compiled HART code.
#include "../harness/hse.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>

static std::vector<std::string> names; static std::vector<uint64_t> vals; static size_t at_;
static FILE* obs_;
static std::stringstream* coutCapture;

static uint64_t next (const char* n)
{
    if (at_ >= vals.size()) { fprintf (stderr, "HSE-REPLAY: out of inputs at %s\n", n); fflush (0); _exit (78); }
    if (names[at_] != n) { fprintf (stderr, "HSE-REPLAY: input %s expected, %s recorded\n", n, names[at_].c_str()); fflush (0); _exit (78); }
    return vals[at_++];
}
static void put (const char* n, const char* t, uint64_t v) { if (obs_) { fprintf (obs_, "%s %s %llx\n", t, n, (unsigned long long) v); fflush (obs_); } }
extern "C" {
float hse_f32 (const char* n) { uint32_t u = (uint32_t) next (n); float f; memcpy (&f, &u, 4); return f; }
double hse_f64 (const char* n) { uint64_t u = next (n); double f; memcpy (&f, &u, 8); return f; }
uint64_t hse_u64 (const char* n, uint64_t, uint64_t) { return next (n); }
uint32_t hse_u32 (const char* n) { return (uint32_t) next (n); }
uint8_t hse_u8 (const char* n) { return (uint8_t) next (n); }
uint64_t hse_pick (const char* n, uint64_t, uint64_t) { return next (n); }
uint64_t hse_concretize (uint64_t v) { return v; }
void hse_assume (int c) { if (! c) { fprintf (stderr, "HSE-ASSUME-FALSE\n"); fflush (0); _exit (78); } }
void hse_check (int c, const char* m) { if (! c) { fprintf (stderr, "HSE-FAIL: %s\n", m); fflush (0); _exit (77); } }
void hse_note (const char* m, uint64_t v) { fprintf (stderr, "HSE-NOTE: %s %llu\n", m, (unsigned long long) v); }
void hse_obs_f32 (const char* n, float v) { uint32_t u; memcpy (&u, &v, 4); put (n, "f32", u); }
void hse_obs_f64 (const char* n, double v) { uint64_t u; memcpy (&u, &v, 8); put (n, "f64", u); }
void hse_obs_u64 (const char* n, uint64_t v) { put (n, "u64", v); }
void hse_done (void) { fflush (0); _exit (0); }
int hse_is_symbolic_build (void) { return 0; }
int hse_and (int a, int b) { return a && b; }
int hse_or (int a, int b) { return a || b; }
int hse_not (int a) { return ! a; }
float hse_ite_f32 (int c, float a, float b) { return c ? a : b; }
double hse_ite_f64 (int c, double a, double b) { return c ? a : b; }
uint64_t hse_ite_u64 (int c, uint64_t a, uint64_t b) { return c ? a : b; }
int hse_same_f32 (float a, float b) { return (a != a && b != b) || memcmp (&a, &b, 4) == 0; }
int hse_same_f64 (double a, double b) { return (a != a && b != b) || memcmp (&a, &b, 8) == 0; }
void hse_file_write (const char* name, const char* data, uint64_t n, int truncate) { std::ofstream f (name, truncate ? std::ios::binary | std::ios::trunc : std::ios::binary | std::ios::app); f.write (data, (std::streamsize) n); }
const char* hse_scratch_dir() { static char d[4096]; return getcwd (d, sizeof d); }
void hse_make_dir (const char* n) { mkdir (n, 0777); }
void hse_file_deny (const char*) {}   // a folder that does not exist denies by itself
int hse_file_exists (const char* n) { struct stat s; return stat (n, &s) == 0; }
uint64_t hse_file_size (const char* n) { struct stat s; return stat (n, &s) == 0 ? (uint64_t) s.st_size : 0; }
unsigned hse_file_byte (const char* n, uint64_t i) { std::ifstream f (n, std::ios::binary); f.seekg ((std::streamoff) i); char c = 0; f.get (c); return (unsigned char) c; }
}
size_t hse_num_at (const std::string& t, size_t p, double* v, int* prec)
{
    if (p >= t.size()) return 0;
    if (! (isdigit ((unsigned char) t[p]) || t[p] == '-' || t[p] == '+' || t[p] == 'n' || t[p] == 'i')) return 0;
    const char* s = t.c_str() + p; char* e = nullptr;
    *v = strtod (s, &e);
    if (e == s) return 0;
    size_t n = (size_t) (e - s); *prec = 0;
    for (size_t i = 0; i < n; ++i) if (s[i] == '.') *prec = (int) (n - i - 1);
    return n;
}
std::string hse_cout_text() { return coutCapture->str(); }
void hse_cout_clear() { coutCapture->str (""); }

int main (int argc, char** argv)
{
    static std::stringstream cap; coutCapture = &cap; std::cout.rdbuf (cap.rdbuf());
    if (argc < 2) return 2;
    std::ifstream f (argv[1]);
    std::string n; std::string h;
    while (f >> n >> h) { names.push_back (n); vals.push_back (strtoull (h.c_str(), nullptr, 16)); }
    if (argc > 2) obs_ = fopen (argv[2], "w");
    hse_main();
    fprintf (stderr, "HSE-END\n"); fflush (0);
    _exit (0);
}
