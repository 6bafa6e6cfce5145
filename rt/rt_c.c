/* libc string functions for the symbolic build */
#include <stddef.h>
size_t strlen (const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp (const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int) (unsigned char) *a - (int) (unsigned char) *b; }
int strncmp (const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { if (*a != *b) return (int) (unsigned char) *a - (int) (unsigned char) *b; if (! *a) break; } return 0; }
int memcmp (const void* a, const void* b, size_t n) { const unsigned char* x = (const unsigned char*) a; const unsigned char* y = (const unsigned char*) b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp (const void* a, const void* b, size_t n) { return memcmp (a, b, n); }
void* memchr (const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*) a; for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char) c) return (void*) (x + i); return 0; }
char* strchr (const char* s, int c) { for (;; ++s) { if (*s == (char) c) return (char*) s; if (! *s) return 0; } }
char* strcpy (char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
int isalpha (int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit (int c) { return c >= '0' && c <= '9'; }
int isspace (int c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower (int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper (int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char* strrchr (const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char) c) r = (char*) s; if (! *s) return r; } }
char* strstr (const char* s, const char* t) { const size_t n = strlen (t); for (;; ++s) { if (strncmp (s, t, n) == 0) return (char*) s; if (! *s) return 0; } }
char* strncpy (char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat (char* d, const char* s) { strcpy (d + strlen (d), s); return d; }
int isalnum (int c) { return isalpha (c) || isdigit (c); }
int isupper (int c) { return c >= 'A' && c <= 'Z'; }
int islower (int c) { return c >= 'a' && c <= 'z'; }
int isprint (int c) { return c >= 32 && c < 127; }
int ispunct (int c) { return c > 32 && c < 127 && ! isalnum (c); }
int isxdigit (int c) { return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned long long bitsOf (double x) { unsigned long long b; __builtin_memcpy (&b, &x, 8); return b; }
static double fromBits (unsigned long long b) { double x; __builtin_memcpy (&x, &b, 8); return x; }
double frexp (double x, int* e)
{
    *e = 0; if (x == 0 || x != x || x - x != 0) return x;
    int k = 0; if (((bitsOf (x) >> 52) & 0x7ff) == 0) { x *= 18014398509481984.0; k = 54; }
    *e = (int) ((bitsOf (x) >> 52) & 0x7ff) - 1022 - k; return fromBits ((bitsOf (x) & ~(0x7ffull << 52)) | (1022ull << 52));
}
double fdim (double x, double y) { return x != x || y != y ? x + y : x > y ? x - y : 0; }
float fdimf (float x, float y) { return x != x || y != y ? x + y : x > y ? x - y : 0; }
double modf (double x, double* i) { if (x - x != 0) { *i = x; return x != x ? x : __builtin_copysign (0.0, x); } const double t = __builtin_trunc (x); *i = t; return __builtin_copysign (x - t, x); }
float modff (float x, float* i) { if (x - x != 0) { *i = x; return x != x ? x : __builtin_copysignf (0.0f, x); } const float t = __builtin_truncf (x); *i = t; return __builtin_copysignf (x - t, x); }
static unsigned long long digitsOf (const char* s, char** e, int base, int* neg)
{
    const char* p = s; while (isspace (*p)) ++p;
    *neg = 0; if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit (p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; int any = 0;
    for (;; ++p) { int d = isdigit (*p) ? *p - '0' : isalpha (*p) ? tolower (*p) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; any = 1; }
    if (e) *e = (char*) (any ? p : s); return v;
}
unsigned long long strtoull (const char* s, char** e, int b) { int n; unsigned long long v = digitsOf (s, e, b, &n); return n ? -v : v; }
long long strtoll (const char* s, char** e, int b) { return (long long) strtoull (s, e, b); }
unsigned long strtoul (const char* s, char** e, int b) { return strtoull (s, e, b); }
long strtol (const char* s, char** e, int b) { return (long) strtoull (s, e, b); }
unsigned long long __isoc23_strtoull (const char* s, char** e, int b) { return strtoull (s, e, b); }
long long __isoc23_strtoll (const char* s, char** e, int b) { return strtoll (s, e, b); }
unsigned long __isoc23_strtoul (const char* s, char** e, int b) { return strtoul (s, e, b); }
long __isoc23_strtol (const char* s, char** e, int b) { return strtol (s, e, b); }
int atoi (const char* s) { return (int) strtol (s, 0, 10); }
long atol (const char* s) { return strtol (s, 0, 10); }
double strtod (const char*, char**);
double atof (const char* s) { return strtod (s, 0); }
