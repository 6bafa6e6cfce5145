// Runtime for the symbolic build: the out-of-line pieces of libstdc++/libc that HART and dr_wav reach.
#include <string>
#include <vector>
#include <stdexcept>
#include <new>
#include <functional>
#include <unordered_map>
#include <map>
#include <list>
#include <chrono>
#include <thread>
#include <iostream>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cerrno>

extern "C" {
void* hse_new (uint64_t); void* hse_newarr (uint64_t);
uint64_t hse_concretize (uint64_t);
void* malloc (size_t); void free (void*); void* realloc (void*, size_t);
void* memcpy (void*, const void*, size_t);
void* memset (void*, int, size_t);

static int hse_errno_v;
int* __errno_location() { return &hse_errno_v; }
char* getenv (const char*) { return 0; }
void* __dso_handle = 0;

// ---- in-memory file system -------------------------------------------------------------------------------------
struct HseFile { const char* name; unsigned char* data; size_t size, cap; };
static HseFile hse_files[32];
static unsigned hse_nfiles;
static const char* hse_denied;
struct HseHandle { HseFile* f; size_t pos; int wr, eof; };
static const char hse_scratch[] = "/hse-scratch";   // stands for the scratch directory of a replay
const char* hse_scratch_dir() { return hse_scratch; }
void hse_make_dir (const char*) {}
static const char* hse_norm (const char* n) { if (strncmp (n, hse_scratch, sizeof hse_scratch - 1) == 0 && n[sizeof hse_scratch - 1] == '/') { n += sizeof hse_scratch - 1; while (*n == '/') ++n; } while (n[0] == '.' && n[1] == '/') { n += 2; while (*n == '/') ++n; } return n; }
static bool hse_same_path (const char* a, const char* b)   // runs of slashes count as one
{
    for (; *a && *a == *b; ++a, ++b) if (*a == '/') { while (a[1] == '/') ++a; while (b[1] == '/') ++b; }
    return *a == *b;
}
static HseFile* hse_find_file (const char* n) { n = hse_norm (n); for (unsigned i = 0; i < hse_nfiles; ++i) if (hse_same_path (hse_files[i].name, n)) return &hse_files[i]; return 0; }
static HseFile* hse_create_file (const char* n)
{
    n = hse_norm (n);
    HseFile* f = hse_find_file (n);
    if (f) { f->size = 0; return f; }
    if (hse_nfiles == 32) return 0;
    f = &hse_files[hse_nfiles++];
    char* c = (char*) malloc (strlen (n) + 1); strcpy (c, n);
    f->name = c; f->data = 0; f->size = f->cap = 0;
    return f;
}
static void hse_file_put (HseFile* f, size_t pos, const unsigned char* d, size_t n)
{
    if (pos + n > f->cap)
    {
        size_t cap = f->cap ? f->cap : 256; while (cap < pos + n) cap *= 2;
        unsigned char* nd = (unsigned char*) malloc (cap);
        memset (nd, 0, cap);
        if (f->size) memcpy (nd, f->data, f->size);
        if (f->data) free (f->data);
        f->data = nd; f->cap = cap;
    }
    if (n) memcpy (f->data + pos, d, n);
    if (pos + n > f->size) f->size = pos + n;
}
void hse_file_write (const char* name, const char* data, uint64_t n, int truncate)
{ HseFile* f = hse_find_file (name); if (! f || truncate) f = hse_create_file (name); hse_file_put (f, f->size, (const unsigned char*) data, n); }
// harness-side access
int hse_file_exists (const char* name) { return hse_find_file (name) != 0; }
void hse_file_deny (const char* prefix) { hse_denied = prefix; }
uint64_t hse_file_count() { return hse_nfiles; }
uint64_t hse_file_size (const char* name) { HseFile* f = hse_find_file (name); return f ? f->size : 0; }
unsigned hse_file_byte (const char* name, uint64_t i) { HseFile* f = hse_find_file (name); return f && i < f->size ? f->data[i] : 0; }

FILE* fopen (const char* n, const char* mode)
{
    HseFile* f;
    if (hse_denied && strncmp (n, hse_denied, strlen (hse_denied)) == 0) { hse_errno_v = ENOENT; return 0; }
    if (mode[0] == 'w') f = hse_create_file (n);
    else if (mode[0] == 'a') { f = hse_find_file (n); if (! f) f = hse_create_file (n); }
    else f = hse_find_file (n);
    if (! f) { hse_errno_v = ENOENT; return 0; }
    HseHandle* h = (HseHandle*) malloc (sizeof (HseHandle));
    h->f = f; h->pos = mode[0] == 'a' ? f->size : 0; h->wr = mode[0] != 'r'; h->eof = 0;
    return (FILE*) h;
}
int fclose (FILE* p) { free (p); return 0; }
size_t fread (void* d, size_t sz, size_t n, FILE* p)
{
    HseHandle* h = (HseHandle*) p;
    size_t want = hse_concretize (sz * n), have = h->f->size > h->pos ? h->f->size - h->pos : 0;
    if (want > have) { want = have; h->eof = 1; }
    if (want) memcpy (d, h->f->data + h->pos, want);
    h->pos += want;
    return sz ? want / sz : 0;
}
size_t fwrite (const void* d, size_t sz, size_t n, FILE* p)
{ HseHandle* h = (HseHandle*) p; size_t t = hse_concretize (sz * n); hse_file_put (h->f, h->pos, (const unsigned char*) d, t); h->pos += t; return n; }
int fseek (FILE* p, long off, int wh)
{ HseHandle* h = (HseHandle*) p; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long) h->pos : (long) h->f->size; if (b + off < 0) return -1; h->pos = (size_t) (b + off); h->eof = 0; return 0; }
long ftell (FILE* p) { return (long) ((HseHandle*) p)->pos; }
int feof (FILE* p) { return ((HseHandle*) p)->eof; }
int ferror (FILE*) { return 0; }
void rewind (FILE* p) { ((HseHandle*) p)->pos = 0; }
int remove (const char* n)
{ HseFile* f = hse_find_file (n); if (! f) return -1; *f = hse_files[--hse_nfiles]; return 0; }
}

// ---- text ---------------------------------------------------------------------------------------------------------
static HseTextNum hse_nums[676];
static unsigned hse_nnums;
const HseTextNum& hse_text_num_at (unsigned i) { return hse_nums[i < 676 ? i : 0]; }
unsigned hse_text_num_add (double v, int p, int fx)
{ unsigned i = hse_nnums < 675 ? hse_nnums++ : 675; hse_nums[i].value = v; hse_nums[i].precision = p; hse_nums[i].fixed = fx; return i; }
namespace std { HseLogStream cout __attribute__ ((init_priority (101))), cerr __attribute__ ((init_priority (101))), clog __attribute__ ((init_priority (101))); }

// ---- printf family (into memory): numbers become tokens, as with streams ------------------------------------------------
extern "C" int vsnprintf (char* out, size_t cap, const char* f, va_list ap)
{
    std::string o;
    for (; *f; ++f)
    {
        if (*f != '%') { o += *f; continue; }
        ++f; bool left = false, plus = false, zero = false, space = false, alt = false; int width = 0, prec = -1, len = 0;
        for (;; ++f) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '0') zero = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
        if (*f == '*') { width = va_arg (ap, int); ++f; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg (ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') len = 2; else if (*f == 'h') { if (len == 0) len = -1; else len = -2; } else if (*f == 'L') len = 3; else break; }
        std::string t; (void) alt;
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o')
        {
            uint64_t v = hse_concretize (len == 2 ? va_arg (ap, uint64_t) : (uint64_t) (int64_t) va_arg (ap, int)); bool neg = false;
            if (*f == 'd' || *f == 'i') { int64_t sv = len == -1 ? (short) v : len == -2 ? (signed char) v : (int64_t) v; neg = sv < 0; v = neg ? 0 - (uint64_t) sv : (uint64_t) sv; }
            else if (len == 0) v = (unsigned) v; else if (len == -1) v = (unsigned short) v; else if (len == -2) v = (unsigned char) v;
            char b[26]; int p = 26; const unsigned base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
            if (! v && prec != 0) b[--p] = '0';
            while (v) { b[--p] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; }
            while (26 - p < prec && p > 1) b[--p] = '0';
            if (zero && ! left && prec < 0) while (26 - p + (neg || plus || space) < width && p > 1) b[--p] = '0';
            if (neg) b[--p] = '-'; else if ((plus || space) && (*f == 'd' || *f == 'i')) b[--p] = plus ? '+' : ' ';
            t.assign (b + p, (size_t) (26 - p));
        }
        else if (*f == 'f' || *f == 'F' || *f == 'e' || *f == 'E' || *f == 'g' || *f == 'G' || *f == 'a')
        {
            const double v = va_arg (ap, double);
            const unsigned i = hse_text_num_add (v, prec < 0 ? 6 : prec, *f == 'f' || *f == 'F');
            t = { 1, (char) ('A' + i / 26), (char) ('A' + i % 26), 2 };
        }
        else if (*f == 's') { const char* s = va_arg (ap, const char*); size_t n = 0; while ((prec < 0 || n < (size_t) prec) && s[n]) ++n; t.assign (s, n); }
        else if (*f == 'c') t.assign (1, (char) va_arg (ap, int));
        else if (*f == 'p') { (void) va_arg (ap, void*); t = "0xPTR"; }
        else if (*f == '%') t = "%";
        while (! left && t.size() < (size_t) width) t.insert (0, 1, ' ');
        while (left && t.size() < (size_t) width) t += ' ';
        o += t;
    }
    if (cap) { const size_t n = o.size() < cap - 1 ? o.size() : cap - 1; memcpy (out, o.data(), n); out[n] = 0; }
    return (int) o.size();
}
extern "C" int snprintf (char* out, size_t cap, const char* f, ...) { va_list ap; va_start (ap, f); const int n = vsnprintf (out, cap, f, ap); va_end (ap); return n; }
extern "C" int sprintf (char* out, const char* f, ...) { va_list ap; va_start (ap, f); const int n = vsnprintf (out, (size_t) 1 << 30, f, ap); va_end (ap); return n; }
extern "C" double strtod (const char* s, char** e)   // plain decimal numbers
{
    const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
    const char* d = p; double m = 0; int x = 0; unsigned digits = 0;
    while (*p >= '0' && *p <= '9') { m = m * 10 + (*p++ - '0'); ++digits; }
    if (*p == '.') { ++p; while (*p >= '0' && *p <= '9') { m = m * 10 + (*p++ - '0'); --x; ++digits; } }
    if (! digits) { if (e) *e = (char*) s; return 0; }
    if (*p == 'e' || *p == 'E') { const char* q = p + 1; bool xn = false; if (*q == '-' || *q == '+') xn = *q++ == '-'; if (*q >= '0' && *q <= '9') { int k = 0; while (*q >= '0' && *q <= '9') k = k * 10 + (*q++ - '0'); x += xn ? -k : k; p = q; } }
    double k = 1; for (int i = 0; i < (x < 0 ? -x : x); ++i) k *= 10;
    if (e) *e = (char*) p; (void) d; m = x < 0 ? m / k : m * k; return neg ? -m : m;
}
extern "C" float strtof (const char* s, char** e) { return (float) strtod (s, e); }
namespace std { namespace chrono { inline namespace _V2 {
static long long hse_now; 
steady_clock::time_point steady_clock::now() noexcept { return time_point (duration (hse_now += 1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point (duration (hse_now += 1000)); }
}}}
// a thread runs to its end when it is started
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread (_State_ptr s, void (*)()) { s->_M_run(); _M_id = id (1); }
void thread::join() { _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
}
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy (void) { __once_call(); } }
extern "C" int pthread_once (int* o, void (*f)()) { if (! *o) { *o = 1; f(); } return 0; }

// ---- operator new ---------------------------------------------------------------------------------------------------
void* operator new (size_t n) { void* p = hse_new (n); if (! p) throw std::bad_alloc(); return p; }
void* operator new[] (size_t n) { void* p = hse_newarr (n); if (! p) throw std::bad_alloc(); return p; }
void* operator new (size_t n, const std::nothrow_t&) noexcept { return hse_new (n); }
void* operator new[] (size_t n, const std::nothrow_t&) noexcept { return hse_newarr (n); }

// ---- std exceptions -------------------------------------------------------------------------------------------------
namespace std {
const nothrow_t nothrow {};
static const char* hse_dup (const char* s) { size_t n = strlen (s) + 1; char* p = (char*) malloc (n); memcpy (p, s, n); return p; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() { _M_p = hse_dup (""); }
__cow_string::__cow_string (const std::string& s) { _M_p = hse_dup (s.c_str()); }
__cow_string::__cow_string (const char* s, size_t) { _M_p = hse_dup (s); }
__cow_string::__cow_string (const __cow_string& o) noexcept { _M_p = hse_dup (o._M_p); }
__cow_string& __cow_string::operator= (const __cow_string& o) noexcept { if (this != &o) { free ((void*) _M_p); _M_p = hse_dup (o._M_p); } return *this; }
__cow_string::~__cow_string() { free ((void*) _M_p); }

runtime_error::runtime_error (const string& s) : _M_msg (s) {}
runtime_error::runtime_error (const char* s) : _M_msg (s, 0) {}
runtime_error::runtime_error (const runtime_error& o) noexcept : exception (o), _M_msg (o._M_msg) {}
runtime_error& runtime_error::operator= (const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error (const string& s) : _M_msg (s) {}
logic_error::logic_error (const char* s) : _M_msg (s, 0) {}
logic_error::logic_error (const logic_error& o) noexcept : exception (o), _M_msg (o._M_msg) {}
logic_error& logic_error::operator= (const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
#define HSE_EX(cls, base) cls::cls (const string& s) : base (s) {} cls::cls (const char* s) : base (s) {} cls::~cls() noexcept {}
HSE_EX (out_of_range, logic_error) HSE_EX (length_error, logic_error) HSE_EX (invalid_argument, logic_error) HSE_EX (domain_error, logic_error)
HSE_EX (range_error, runtime_error) HSE_EX (overflow_error, runtime_error) HSE_EX (underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error (const char* s) { throw logic_error (s); }
void __throw_length_error (const char* s) { throw length_error (s); }
void __throw_out_of_range (const char* s) { throw out_of_range (s); }
void __throw_out_of_range_fmt (const char* s, ...) { throw out_of_range (s); }
void __throw_invalid_argument (const char* s) { throw invalid_argument (s); }
void __throw_domain_error (const char* s) { throw domain_error (s); }
void __throw_runtime_error (const char* s) { throw runtime_error (s); }
void __throw_range_error (const char* s) { throw range_error (s); }
void __throw_overflow_error (const char* s) { throw overflow_error (s); }
void __throw_underflow_error (const char* s) { throw underflow_error (s); }

// ---- containers -----------------------------------------------------------------------------------------------------
size_t _Hash_bytes (const void* p, size_t n, size_t seed)
{ const unsigned char* c = (const unsigned char*) p; size_t h = seed ^ 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ULL; } return hse_concretize (h); }

namespace __detail {
static const size_t hse_primes[] = { 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043 };
size_t _Prime_rehash_policy::_M_next_bkt (size_t n) const
{ size_t r = hse_primes[16]; for (unsigned i = 0; i < 17; ++i) if (hse_primes[i] >= n) { r = hse_primes[i]; break; } _M_next_resize = (size_t) (r * (double) _M_max_load_factor); return r; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash (size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize)
    {
        size_t want = ne + ni; if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= nb) { size_t a = want + 1, b = nb * 2; return std::make_pair (true, _M_next_bkt (a > b ? a : b)); }
        _M_next_resize = (size_t) (nb * (double) _M_max_load_factor);
        return std::make_pair (false, (size_t) 0);
    }
    return std::make_pair (false, (size_t) 0);
}
void _List_node_base::_M_hook (_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer (_List_node_base* const f, _List_node_base* const l) noexcept
{ if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap (_List_node_base&, _List_node_base&) noexcept {}
void _List_node_base::_M_reverse() noexcept {}
}

// unbalanced search tree: same ordering semantics as the red-black tree
static _Rb_tree_node_base* hse_min (_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* hse_max (_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_increment (_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) return hse_min (x->_M_right);
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment (const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment (const_cast<_Rb_tree_node_base*> (x)); }
_Rb_tree_node_base* _Rb_tree_decrement (_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return hse_max (x->_M_left);
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement (const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement (const_cast<_Rb_tree_node_base*> (x)); }
void _Rb_tree_insert_and_rebalance (const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase (_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto replace = [&] (_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
        if (h._M_parent == u) h._M_parent = v; else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent; };
    if (! z->_M_left) replace (z, z->_M_right);
    else if (! z->_M_right) replace (z, z->_M_left);
    else
    {
        _Rb_tree_node_base* y = hse_min (z->_M_right);
        if (y->_M_parent != z) { replace (y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace (z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) { h._M_left = hse_min (h._M_parent); h._M_right = hse_max (h._M_parent); } else { h._M_left = &h; h._M_right = &h; }
    return z;
}
// atexit order, shared_ptr threading: single threaded
}
namespace std { template class basic_string<char>; }
