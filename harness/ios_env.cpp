// Environment model of the C++ standard library's streams for the symbolic executor only: the "C" locale, and
// formatted output and input of integers as the C++ standard specifies them (native replays use libstdc++ itself).
#define private public
#define protected public
#include <istream>
#include <ostream>
#include <locale>
#include <new>
#undef private
#undef protected
namespace {
alignas(std::ctype<char>) char ctype_mem[sizeof(std::ctype<char>)]; bool ctype_ready = false;
char dummy_facet;
const std::ctype<char>* the_ctype()
{
    auto* p = reinterpret_cast<std::ctype<char>*>(ctype_mem);
    if (!ctype_ready)
    {
        ctype_ready = true;
        static unsigned short table[256];
        for (int c = 0; c < 256; ++c) table[c] = (c == ' ' || (c >= 9 && c <= 13)) ? std::ctype_base::space : 0;
        p->_M_table = table; p->_M_widen_ok = 1; p->_M_narrow_ok = 1;
        for (int c = 0; c < 256; ++c) { p->_M_widen[c] = char(c); p->_M_narrow[c] = char(c); }
    }
    return p;
}
void insert(std::ostream& o, bool negative, unsigned long v)
{
    std::ostream::sentry s(o);
    if (!s) return;
    const auto f = o.flags(), base = f & std::ios_base::basefield; const bool upper = (f & std::ios_base::uppercase) != 0;
    char t[32]; int n = 32; // digits from the end
    if (base == std::ios_base::hex || base == std::ios_base::oct)
    {
        const int bits = base == std::ios_base::hex ? 4 : 3; int len = 1; for (int i = 1; i * bits < 64; ++i) len = (v >> (i * bits)) ? i + 1 : len; // branch free
        char all[24]; for (int i = 0; i < 22; ++i) { const unsigned d = i * bits < 64 ? (v >> (i * bits)) & ((1u << bits) - 1) : 0; all[i] = char(d + '0' + (d > 9 ? (upper ? 7 : 39) : 0)); }
        if ((v >> 32) == 0 && bits == 4 && o.width() >= 8 && !(f & std::ios_base::showbase) && (f & std::ios_base::adjustfield) != std::ios_base::left)
        { // at most 8 digits, padded on the left (same result as below without a path per length)
            const int w = int(o.width()); const char fill = o.fill(); bool ok = true; o.width(0);
            for (int i = w - 1; i >= 0; --i) { const char ch = i < 8 ? (i < len ? all[i] : fill) : fill; if (o.rdbuf()->sputc(ch) == EOF) ok = false; }
            if (!ok) o.setstate(std::ios_base::badbit);
            return;
        }
        const int k = int(len); int l = 1; while (l < k) ++l; // one path per length
        for (int i = 0; i < l; ++i) t[--n] = all[i];
        if ((f & std::ios_base::showbase) && v) { if (bits == 4) t[--n] = upper ? 'X' : 'x'; t[--n] = '0'; }
    }
    else
    {
        do { t[--n] = char('0' + v % 10); v /= 10; } while (v);
        if (negative) t[--n] = '-'; else if (f & std::ios_base::showpos) t[--n] = '+';
    }
    const int len = 32 - n, width = int(o.width()), pad = width > len ? width - len : 0; o.width(0);
    const auto adj = f & std::ios_base::adjustfield; int head = 0; // characters before the padding
    if (adj == std::ios_base::left) head = len;
    else if (adj == std::ios_base::internal) { if (t[n] == '-' || t[n] == '+') head = 1; else if (base == std::ios_base::hex && (f & std::ios_base::showbase) && len > 2) head = 2; }
    bool ok = true; const char fill = o.fill();
    for (int i = 0; i < head; ++i) if (o.rdbuf()->sputc(t[n + i]) == EOF) ok = false;
    for (int i = 0; i < pad; ++i) if (o.rdbuf()->sputc(fill) == EOF) ok = false;
    for (int i = head; i < len; ++i) if (o.rdbuf()->sputc(t[n + i]) == EOF) ok = false;
    if (!ok) o.setstate(std::ios_base::badbit);
}
// value of a digit, or 99
unsigned digit(int c) { unsigned r = 99; r = (c >= '0' && c <= '9') ? unsigned(c - '0') : r; r = (c >= 'a' && c <= 'f') ? unsigned(c - 'a' + 10) : r; r = (c >= 'A' && c <= 'F') ? unsigned(c - 'A' + 10) : r; return r; }
bool extract(std::istream& in, unsigned long max, unsigned long& v)
{
    std::istream::sentry s(in); v = 0;
    if (!s) return false;
    auto st = std::ios_base::goodbit; auto* b = in.rdbuf(); const auto basef = in.flags() & std::ios_base::basefield;
    unsigned base = basef == std::ios_base::hex ? 16 : basef == std::ios_base::oct ? 8 : 10; bool neg = false, any = false, over = false; int c = b->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    if ((base == 16 || basef == 0) && c == '0')
    {
        any = true; c = b->snextc();
        if (c == 'x' || c == 'X') { any = false; base = 16; c = b->snextc(); } else if (basef == 0) base = 8;
    }
    for (; c != EOF; c = b->snextc())
    {
        const unsigned d = digit(c);
        if (d >= base) break;
        any = true; const unsigned __int128 x = (unsigned __int128)v * base + d; over |= x > max; v = (unsigned long)x & max;
    }
    if (c == EOF) st |= std::ios_base::eofbit;
    if (!any) { v = 0; st |= std::ios_base::failbit; } else if (over) { v = max; st |= std::ios_base::failbit; } else if (neg) v = (0 - v) & max;
    if (st) in.setstate(st);
    return true;
}
}
extern "C" {
std::ostream* env_insert_ul(std::ostream* o, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
std::ostream* env_insert_ul(std::ostream* o, unsigned long v) { insert(*o, false, v); return o; }
std::ostream* env_insert_ull(std::ostream* o, unsigned long long v) asm("_ZNSo9_M_insertIyEERSoT_");
std::ostream* env_insert_ull(std::ostream* o, unsigned long long v) { insert(*o, false, v); return o; }
std::ostream* env_insert_l(std::ostream* o, long v) asm("_ZNSo9_M_insertIlEERSoT_");
std::ostream* env_insert_l(std::ostream* o, long v) { const bool dec = !(o->flags() & (std::ios_base::hex | std::ios_base::oct)); if (dec && v < 0) insert(*o, true, 0 - (unsigned long)v); else insert(*o, false, (unsigned long)v); return o; }
std::istream* env_extract_u(std::istream* i, unsigned* v) asm("_ZNSi10_M_extractIjEERSiRT_");
std::istream* env_extract_u(std::istream* i, unsigned* v) { unsigned long x; if (extract(*i, 0xFFFFFFFFu, x)) *v = unsigned(x); return i; }
std::istream* env_extract_ul(std::istream* i, unsigned long* v) asm("_ZNSi10_M_extractImEERSiRT_");
std::istream* env_extract_ul(std::istream* i, unsigned long* v) { unsigned long x; if (extract(*i, ~0ul, x)) *v = x; return i; }
void env_cache_locale(std::ios* s, const std::locale*) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void env_cache_locale(std::ios* s, const std::locale*) { s->_M_ctype = the_ctype(); s->_M_num_put = (decltype(s->_M_num_put)) & dummy_facet; s->_M_num_get = (decltype(s->_M_num_get)) & dummy_facet; }
void env_ios_ctor(std::ios_base* s) asm("_ZNSt8ios_baseC2Ev");
void env_ios_ctor(std::ios_base* s) { s->_M_precision = 0; s->_M_width = 0; s->_M_flags = std::ios_base::fmtflags(0); s->_M_exception = s->_M_streambuf_state = std::ios_base::goodbit; }
void env_ios_dtor(std::ios_base*) asm("_ZNSt8ios_baseD2Ev");
void env_ios_dtor(std::ios_base*) {}
void env_ios_init(std::ios_base* s) asm("_ZNSt8ios_base7_M_initEv");
void env_ios_init(std::ios_base* s) { s->_M_precision = 6; s->_M_width = 0; s->_M_flags = std::ios_base::skipws | std::ios_base::dec; }
void env_loc_ctor(std::locale*) asm("_ZNSt6localeC1Ev");
void env_loc_ctor(std::locale*) {}
void env_loc_dtor(std::locale*) asm("_ZNSt6localeD1Ev");
void env_loc_dtor(std::locale*) {}
void env_bad_cast() asm("_ZSt16__throw_bad_castv");
void env_bad_cast() { __builtin_trap(); }
void env_ios_failure(const char*) asm("_ZSt19__throw_ios_failurePKc");
void env_ios_failure(const char*) { __builtin_trap(); }
bool env_uncaught() asm("_ZSt18uncaught_exceptionv");
bool env_uncaught() { return false; }
}
