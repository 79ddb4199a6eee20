// C library functions for the symbolic executor only (native replays use the C library): "C" locale.
// Compiled with -fno-builtin; a definition is used only where the code under test calls it.
#include <stdarg.h>
#include <stddef.h>
#define W __attribute__((weak))
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int isupper(int c) { return c >= 'A' && c <= 'Z'; }
W int islower(int c) { return c >= 'a' && c <= 'z'; }
W int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
W int isalnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
W int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isblank(int c) { return c == ' ' || c == 9; }
W int isprint(int c) { return c >= 32 && c < 127; }
W int isgraph(int c) { return c > 32 && c < 127; }
W int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
W int ispunct(int c) { return c > 32 && c < 127 && !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')); }
W int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
W int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
W int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
W size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
W char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
W char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
W void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
W char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
W char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
W char* strcat(char* d, const char* s) { char* r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
W size_t strspn(const char* s, const char* set) { size_t n = 0; for (;; ++n) { const char* p = set; while (*p && *p != s[n]) ++p; if (!*p || !s[n]) return n; } }
W size_t strcspn(const char* s, const char* set) { size_t n = 0; for (;; ++n) { if (!s[n]) return n; for (const char* p = set; *p; ++p) if (*p == s[n]) return n; } }
W void* mempcpy(void* d, const void* s, size_t n) { for (size_t i = 0; i < n; ++i) ((char*)d)[i] = ((const char*)s)[i]; return (char*)d + n; }
W int abs(int v) { return v < 0 ? -v : v; }
W long labs(long v) { return v < 0 ? -v : v; }
W long long llabs(long long v) { return v < 0 ? -v : v; }
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long number(const char* s, char** end, int base, int* neg, int* over)
{
    const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    *neg = *p == '-'; if (*p == '-' || *p == '+') ++p;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const char* b = p; unsigned long v = 0; *over = 0;
    for (; digit(*p) < base; ++p) { if (v > (~0ul - digit(*p)) / base) *over = 1; v = v * base + digit(*p); }
    if (end) *end = (char*)(p == b ? s : p);
    return v;
}
W long strtol(const char* s, char** e, int b) { int n, o; unsigned long v = number(s, e, b, &n, &o); if (o || v > 0x7ffffffffffffffful) { if (n && !o && v == 1ul << 63) return -0x7fffffffffffffffl - 1; return n ? -0x7fffffffffffffffl - 1 : 0x7fffffffffffffffl; } return n ? -(long)v : (long)v; }
W unsigned long strtoul(const char* s, char** e, int b) { int n, o; unsigned long v = number(s, e, b, &n, &o); return o ? ~0ul : n ? -v : v; }
W long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
W unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
W int atoi(const char* s) { return (int)strtol(s, 0, 10); }
W long atol(const char* s) { return strtol(s, 0, 10); }
static int err; W int* __errno_location(void) { return &err; }
W int vsnprintf(char* d, size_t n, const char* f, va_list a)
{
    size_t k = 0;
#define PUT(ch) do { char c_ = (ch); if (k + 1 < n) d[k] = c_; ++k; } while (0)
    for (; *f; ++f)
    {
        if (*f != '%') { PUT(*f); continue; }
        int zero = 0, left = 0, plus = 0, alt = 0, space = 0, width = 0, prec = -1, size = 0; ++f;
        for (;; ++f) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break; }
        if (*f == '*') { width = va_arg(a, int); if (width < 0) { left = 1; width = -width; } ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(a, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') size = 2; else if (*f == 'h') size = size == -1 ? -2 : -1; else break; }
        char t[72]; int m = 72, sign = 0; const char* s; int len;
        switch (*f)
        {
        case '%': PUT('%'); continue;
        case 'c': t[--m] = (char)va_arg(a, int); s = t + m; len = 1; zero = 0; break;
        case 's': s = va_arg(a, const char*); len = 0; while ((prec < 0 || len < prec) && s[len]) ++len; zero = 0; break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o':
        {
            unsigned long v; const int sg = *f == 'd' || *f == 'i';
            if (sg) { long x = size == 2 ? va_arg(a, long) : va_arg(a, int); if (size == -1) x = (short)x; if (size == -2) x = (signed char)x; if (x < 0) { sign = '-'; v = 0ul - (unsigned long)x; } else { v = x; if (plus) sign = '+'; else if (space) sign = ' '; } }
            else { v = size == 2 ? va_arg(a, unsigned long) : va_arg(a, unsigned); if (size == -1) v = (unsigned short)v; if (size == -2) v = (unsigned char)v; }
            const unsigned base = *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10; const unsigned long whole = v;
            while (v) { unsigned q = v % base; t[--m] = q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10; v /= base; }
            if (prec < 0) { if (m == 72) t[--m] = '0'; } else { zero = 0; while (72 - m < prec && m > 4) t[--m] = '0'; }
            if (zero && !left) while (72 - m + (sign != 0) + (alt && base == 16 && whole ? 2 : 0) < width && m > 4) t[--m] = '0';
            if (alt && whole && base == 16) { t[--m] = *f; t[--m] = '0'; }
            if (sign) t[--m] = (char)sign;
            s = t + m; len = 72 - m; break;
        }
        default: __builtin_trap();
        }
        if (!left) for (int i = len; i < width; ++i) PUT(' ');
        for (int i = 0; i < len; ++i) PUT(s[i]);
        if (left) for (int i = len; i < width; ++i) PUT(' ');
    }
    if (n) d[k < n ? k : n - 1] = 0;
    return (int)k;
}
W int snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(d, n, f, a); va_end(a); return r; }
W int sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(d, 1ul << 40, f, a); va_end(a); return r; }
static double scale(double x, int e) { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
W double ldexp(double x, int e) { return scale(x, e); }
W double scalbn(double x, int e) { return scale(x, e); }
W float ldexpf(float x, int e) { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
W float scalbnf(float x, int e) { return ldexpf(x, e); }
W long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
W unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
W long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
W unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
W double fmod(double x, double y) { double q = x / y; if (q > 4e15 || q < -4e15 || q != q) __builtin_trap(); double r = x - y * (double)(long)q; return r; } // exact while the quotient and product are
W double modf(double x, double* i) { double t = x > 9e15 || x < -9e15 ? x : (double)(long)x; *i = t; return x - t; }
W float modff(float x, float* i) { float t = x > 9e15f || x < -9e15f ? x : (float)(long)x; *i = t; return x - t; }
W double exp2(double x) { int e = (int)x; if ((double)e != x) __builtin_trap(); return scale(1, e); }
W float exp2f(float x) { return (float)exp2(x); }
W double pow(double b, double x) { int e = (int)x; if ((double)e != x) __builtin_trap(); if (b == 2) return scale(1, e); if (e < 0) __builtin_trap(); double r = 1; for (; e > 0; --e) r *= b; return r; } // exact while the power is
W float powf(float b, float x) { return (float)pow(b, x); }
typedef struct { int quot, rem; } div_s; typedef struct { long quot, rem; } ldiv_s;
W div_s div(int a, int b) { div_s r = { a / b, a % b }; return r; }
W ldiv_s ldiv(long a, long b) { ldiv_s r = { a / b, a % b }; return r; }
W ldiv_s lldiv(long a, long b) { ldiv_s r = { a / b, a % b }; return r; }
