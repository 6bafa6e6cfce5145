// Stand-in for the parts of <ios>/<ostream>/<sstream>/<iostream>/<fstream>/<iomanip> that HART uses.
// Used ONLY when the real HART headers are translated to LLVM IR for symbolic execution (the native replay of
// every counterexample uses the real libstdc++).  Text stays concrete: a floating point number is written as the
// four-byte token  \x01 'A'+hi 'A'+lo \x02  that refers to an entry of a side table (value, precision, fixed).
#pragma once
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdint>
#include <cstdio>

extern "C" uint64_t hse_concretize (uint64_t);
extern "C" int hse_known (uint64_t);
extern "C" void hse_file_write (const char* name, const char* data, uint64_t n, int truncate);

struct HseTextNum { double value; int precision; int fixed; };
const HseTextNum& hse_text_num_at (unsigned idx);
unsigned hse_text_num_add (double v, int precision, int fixed);

namespace std {

class ios_base
{
public:
    typedef unsigned fmtflags;
    static const fmtflags fixed = 1, dec = 2, hex = 4, left = 8, right = 16, boolalpha = 32, scientific = 64, skipws = 128,
        showpos = 256, uppercase = 512, oct = 1024, internal = 2048, showpoint = 4096, showbase = 8192, unitbuf = 16384,
        basefield = dec | hex | oct, floatfield = fixed | scientific, adjustfield = left | right | internal;
    typedef unsigned iostate;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    typedef unsigned openmode;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    enum seekdir { beg, cur, end };
    fmtflags flags() const { return f; }
    fmtflags flags (fmtflags n) { fmtflags o = f; f = n; return o; }
    fmtflags setf (fmtflags n) { fmtflags o = f; f |= n; return o; }
    fmtflags setf (fmtflags n, fmtflags m) { fmtflags o = f; f = (f & ~m) | (n & m); return o; }
    void unsetf (fmtflags n) { f &= ~n; }
    streamsize precision() const { return prec; }
    streamsize precision (streamsize n) { streamsize o = prec; prec = n; return o; }
    streamsize width() const { return wid; }
    streamsize width (streamsize n) { streamsize o = wid; wid = n; return o; }
    ios_base& copyfmt (const ios_base& o) { f = o.f; prec = o.prec; wid = o.wid; return *this; }
    virtual ~ios_base() {}
protected:
    fmtflags f = dec | skipws;
    streamsize prec = 6, wid = 0;
};

template <> class basic_ios<char, char_traits<char>> : public ios_base
{
public:
    char fill() const { return fil; }
    char fill (char c) { char o = fil; fil = c; return o; }
    bool good() const { return st == 0; }
    bool fail() const { return (st & (failbit | badbit)) != 0; }
    bool bad() const { return (st & badbit) != 0; }
    bool eof() const { return (st & eofbit) != 0; }
    iostate rdstate() const { return st; }
    void clear (iostate s = goodbit) { st = s; }
    void setstate (iostate s) { st |= s; }
    explicit operator bool() const { return ! fail(); }
    bool operator!() const { return fail(); }
    char widen (char c) const { return c; }
protected:
    char fil = ' ';
    iostate st = 0;
};

template <typename C, typename T> class basic_ios {};       // wide streams are not provided
template <typename C, typename T> class basic_ostream {};
template <typename C, typename T> class basic_istream {};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
public:
    typedef basic_ostream& (*Manip) (basic_ostream&);
    typedef ios_base& (*IosManip) (ios_base&);
    basic_ostream() {}
    virtual ~basic_ostream() {}
    virtual void hse_sink (const char* d, size_t n) = 0;

    basic_ostream& hse_put (const char* d, size_t n)
    {
        size_t w = wid > 0 ? (size_t) wid : 0;
        wid = 0;
        if (w <= n) { hse_sink (d, n); return *this; }
        string pad (w - n, fil);
        if (f & left) { hse_sink (d, n); hse_sink (pad.data(), pad.size()); }
        else { hse_sink (pad.data(), pad.size()); hse_sink (d, n); }
        return *this;
    }
    basic_ostream& operator<< (Manip m) { return m (*this); }
    basic_ostream& operator<< (IosManip m) { m (*this); return *this; }
    basic_ostream& hse_unsigned (unsigned long long v, bool neg)
    {
        char b[26]; int p = 26;
        unsigned base = (f & hex) ? 16 : (f & oct) ? 8 : 10;
        if (v == 0) b[--p] = '0';
        while (v) { b[--p] = ((f & uppercase) ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; }
        if (neg) b[--p] = '-'; else if ((f & showpos) && base == 10) b[--p] = '+';
        return hse_put (b + p, (size_t) (26 - p));
    }
    basic_ostream& hse_signed (long long v)
    {
        v = (long long) hse_concretize ((uint64_t) v);
        if (v < 0 && (f & basefield) == dec) return hse_unsigned (0ULL - (unsigned long long) v, true);
        return hse_unsigned ((unsigned long long) v, false);
    }
    // a number that is not known on this path (and fits a double) is printed as a number token
    basic_ostream& hse_small (long long v)
    {
        if (hse_known ((uint64_t) v) || (f & basefield) != dec) return hse_signed (v);
        const unsigned i = hse_text_num_add ((double) v, 0, 1); char b[4] = { 1, (char) ('A' + i / 26), (char) ('A' + i % 26), 2 }; return hse_put (b, 4);
    }
    basic_ostream& operator<< (long v) { return hse_signed (v); }
    basic_ostream& operator<< (unsigned long v) { if (hse_known (v)) return hse_unsigned (hse_concretize (v), false); return hse_small ((long long) v); }
    basic_ostream& operator<< (bool v) { v = hse_concretize (v) != 0; if (f & boolalpha) return v ? hse_put ("true", 4) : hse_put ("false", 5); return hse_put (v ? "1" : "0", 1); }
    basic_ostream& operator<< (short v) { return hse_signed (v); }
    basic_ostream& operator<< (unsigned short v) { return hse_unsigned (hse_concretize (v), false); }
    basic_ostream& operator<< (int v) { return hse_small (v); }
    basic_ostream& operator<< (unsigned int v) { return hse_small ((long long) v); }
    basic_ostream& operator<< (long long v) { return hse_signed (v); }
    basic_ostream& operator<< (unsigned long long v) { return *this << (unsigned long) v; }
    basic_ostream& operator<< (double v)
    {
        unsigned i = hse_text_num_add (v, (int) prec, (f & floatfield) == fixed ? 1 : 0);
        char b[4] = { 1, (char) ('A' + i / 26), (char) ('A' + i % 26), 2 };
        return hse_put (b, 4);
    }
    basic_ostream& operator<< (float v) { return *this << (double) v; }
    basic_ostream& operator<< (long double v) { return *this << (double) v; }
    basic_ostream& operator<< (const void*) { return hse_put ("0xPTR", 5); }
    basic_ostream& operator<< (nullptr_t) { return hse_put ("nullptr", 7); }
    basic_ostream& put (char c) { hse_sink (&c, 1); return *this; }
    basic_ostream& write (const char* d, streamsize n) { hse_sink (d, (size_t) n); return *this; }
    basic_ostream& flush() { return *this; }
    class sentry { public: explicit sentry (basic_ostream&) {} explicit operator bool() const { return true; } };
};

typedef basic_ostream<char, char_traits<char>> hse_os;

inline hse_os& operator<< (hse_os& o, const char* s) { return o.hse_put (s, char_traits<char>::length (s)); }
inline hse_os& operator<< (hse_os& o, const signed char* s) { return o << (const char*) s; }
inline hse_os& operator<< (hse_os& o, const unsigned char* s) { return o << (const char*) s; }
inline hse_os& operator<< (hse_os& o, char c) { return o.hse_put (&c, 1); }
inline hse_os& operator<< (hse_os& o, signed char c) { return o << (char) c; }
inline hse_os& operator<< (hse_os& o, unsigned char c) { return o << (char) c; }

template <typename S, typename T>
inline typename enable_if<is_base_of<ios_base, typename remove_reference<S>::type>::value && ! is_lvalue_reference<S>::value, S&&>::type
operator<< (S&& o, const T& t) { o << t; return static_cast<S&&> (o); }

inline hse_os& endl (hse_os& o) { return o.put ('\n'); }
inline hse_os& ends (hse_os& o) { return o.put ('\0'); }
inline hse_os& flush (hse_os& o) { return o; }
inline ios_base& fixed (ios_base& b) { b.setf (ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific (ios_base& b) { b.setf (ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat (ios_base& b) { b.unsetf (ios_base::floatfield); return b; }
inline ios_base& boolalpha (ios_base& b) { b.setf (ios_base::boolalpha); return b; }
inline ios_base& noboolalpha (ios_base& b) { b.unsetf (ios_base::boolalpha); return b; }
inline ios_base& showpos (ios_base& b) { b.setf (ios_base::showpos); return b; }
inline ios_base& noshowpos (ios_base& b) { b.unsetf (ios_base::showpos); return b; }
inline ios_base& hex (ios_base& b) { b.setf (ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec (ios_base& b) { b.setf (ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct (ios_base& b) { b.setf (ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left (ios_base& b) { b.setf (ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right (ios_base& b) { b.setf (ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& skipws (ios_base& b) { return b; }

// <iomanip>
struct _Setprecision { int n; };
inline _Setprecision setprecision (int n) { return _Setprecision { n }; }
inline hse_os& operator<< (hse_os& o, _Setprecision s) { o.precision (s.n); return o; }
struct _Setw { int n; };
inline _Setw setw (int n) { return _Setw { n }; }
inline hse_os& operator<< (hse_os& o, _Setw s) { o.width (s.n); return o; }
template <typename C> struct _Setfill { C c; };
template <typename C> inline _Setfill<C> setfill (C c) { return _Setfill<C> { c }; }
inline hse_os& operator<< (hse_os& o, _Setfill<char> s) { o.fill (s.c); return o; }

struct _Iosflags { ios_base::fmtflags m; bool on; };
inline _Iosflags setiosflags (ios_base::fmtflags m) { return _Iosflags { m, true }; }
inline _Iosflags resetiosflags (ios_base::fmtflags m) { return _Iosflags { m, false }; }
inline hse_os& operator<< (hse_os& o, _Iosflags s) { if (s.on) o.setf (s.m); else o.unsetf (s.m); return o; }

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
protected:
    streamsize got = 0;
public:
    virtual ~basic_istream() {}
    virtual size_t hse_source (char*, size_t) { return 0; }
    basic_istream& read (char* d, streamsize n) { got = (streamsize) hse_source (d, (size_t) n); if (got < n) setstate (eofbit | failbit); return *this; }
    streamsize gcount() const { return got; }
    int get() { char c; got = (streamsize) hse_source (&c, 1); if (got == 1) return (unsigned char) c; setstate (eofbit | failbit); return -1; }
};
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>> {};

template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char, char_traits<char>>
{
    string s;
public:
    basic_ostringstream() {}
    explicit basic_ostringstream (const string& t, ios_base::openmode = 0) : s (t) {}
    explicit basic_ostringstream (ios_base::openmode) {}
    void hse_sink (const char* d, size_t n) override { s.append (d, n); }
    string str() const { return s; }
    void str (const string& t) { s = t; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char, char_traits<char>>
{
    string s;
public:
    basic_stringstream() {}
    explicit basic_stringstream (const string& t, ios_base::openmode = 0) : s (t) {}
    explicit basic_stringstream (ios_base::openmode) {}
    void hse_sink (const char* d, size_t n) override { s.append (d, n); }
    string str() const { return s; }
    void str (const string& t) { s = t; }
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char, char_traits<char>>
{
    string name; bool opened = false;
public:
    basic_ofstream() {}
    explicit basic_ofstream (const string& n, ios_base::openmode m = ios_base::out) { open (n, m); }
    explicit basic_ofstream (const char* n, ios_base::openmode m = ios_base::out) { open (n, m); }
    void open (const string& n, ios_base::openmode m = ios_base::out) { name = n; opened = true; hse_file_write (name.c_str(), "", 0, (m & ios_base::app) ? 0 : 1); }
    bool is_open() const { return opened; }
    void close() { opened = false; }
    void hse_sink (const char* d, size_t n) override { if (opened) hse_file_write (name.c_str(), d, n, 0); }
};

template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>
{
    FILE* h = nullptr;
public:
    basic_ifstream() {}
    explicit basic_ifstream (const string& n, ios_base::openmode m = ios_base::in) { open (n, m); }
    explicit basic_ifstream (const char* n, ios_base::openmode m = ios_base::in) { open (n, m); }
    basic_ifstream (const basic_ifstream&) = delete;
    ~basic_ifstream() { close(); }
    void open (const string& n, ios_base::openmode = ios_base::in) { close(); h = fopen (n.c_str(), "rb"); if (! h) setstate (failbit); }
    bool is_open() const { return h != nullptr; }
    void close() { if (h) fclose (h); h = nullptr; }
    size_t hse_source (char* d, size_t n) override { return h ? fread (d, 1, n, h) : 0; }
};

struct HseLogStream : public basic_ostream<char, char_traits<char>>
{
    string text;
    void hse_sink (const char* d, size_t n) override { text.append (d, n); }
};
extern HseLogStream cout, cerr, clog;

}  // namespace std
