// Reference for property exchange headers
#pragma once
#include "ci.h"
// text of n characters that need no escaping in JSON
struct Text
{
    char* p; uint32_t n;
    explicit Text(uint32_t n_) : p(new char[n_]), n(n_) { for (uint32_t i = 0; i < n; ++i) { const uint8_t c = vf_u8(); vf_assume(c >= 0x20 && c < 0x7F && c != '"' && c != '\\'); p[i] = char(c); } }
    // digits, all of them free, with one free character among them
    Text(uint32_t n_, uint32_t any) : p(new char[n_]), n(n_) { for (uint32_t i = 0; i < n; ++i) { const uint8_t c = vf_u8(); if (i == any) vf_assume(c >= 0x20 && c < 0x7F && c != '"' && c != '\\'); else vf_assume(c >= '0' + (i == 0) && c <= '9'); p[i] = char(c); } }
    ~Text() { delete[] p; }
    Text(const Text&) = delete;
    std::string_view view() const { return { p, n }; }
    bool number() const // -?(0|[1-9][0-9]*)
    {
        uint32_t i = 0; if (n && p[0] == '-') i = 1;
        if (i == n) return false;
        bool digits = true; for (uint32_t k = i; k < n; ++k) digits &= p[k] >= '0' && p[k] <= '9';
        return digits && (p[i] != '0' || n - i == 1);
    }
};
struct Json
{
    uint8_t b[2048]; uint32_t n = 0;
    void c(char x) { b[n++] = uint8_t(x); }
    void s(const char* x) { while (*x) c(*x++); }
    void t(const Text& x) { for (uint32_t i = 0; i < x.n; ++i) c(x.p[i]); }
    void quoted(const Text& x) { c('"'); t(x); c('"'); }
    void value(const Text& x) { if (x.number()) t(x); else quoted(x); }
};
static bool eq(std::string_view s, const Json& j)
{
    if (s.size() != j.n) return false;
    bool r = true; for (uint32_t i = 0; i < j.n; ++i) r &= uint8_t(s[i]) == j.b[i];
    return r;
}
// reads an integer at s[pos] in minimal decimal notation; returns the position behind it
static uint32_t read_int(std::string_view s, uint32_t pos, int64_t& v, bool& ok)
{
    bool neg = false; if (pos < s.size() && s[pos] == '-') { neg = true; ++pos; }
    const uint32_t first = pos; int64_t r = 0;
    while (pos < s.size() && s[pos] >= '0' && s[pos] <= '9') { r = r * 10 + (s[pos] - '0'); ++pos; if (pos - first > 10) break; }
    ok = pos > first && pos - first <= 10 && (s[first] != '0' || pos - first == 1) && !(neg && r == 0);
    v = neg ? -r : r;
    return pos;
}
