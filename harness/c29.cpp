// C29: textual form of packets
#include "pk.h"
#include <cstring>
#include <istream>
#include <ostream>
#include <streambuf>
using namespace midi;
struct Buf : std::streambuf
{
    char b[128];
    Buf() { setp(b, b + sizeof b); }
    explicit Buf(uint32_t n) { setg(b, b, b + n); }
    uint32_t written() const { return uint32_t(pptr() - pbase()); }
    uint32_t consumed() const { return uint32_t(gptr() - eback()); }
};
static char hex(uint32_t d, bool upper) { return char(d + '0' + (d > 9 ? (upper ? 7 : 39) : 0)); }
static uint32_t words_of(uint32_t type) { static const uint8_t n[] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 }; return n[type]; }
// text of n words at b[at...]; returns the position after it
static uint32_t text(char* b, uint32_t at, const uint32_t* w, uint32_t n, bool upper)
{
    for (uint32_t i = 0; i < n; ++i) { if (i) b[at++] = ' '; for (int k = 7; k >= 0; --k) b[at++] = hex((w[i] >> (4 * k)) & 15, upper); }
    return at;
}
static universal_packet packet(uint32_t type)
{
    const uint32_t a = vf_u32(); vf_assume((a >> 28) == type); universal_packet p; p.data[0] = (type << 28) | (a & 0x0FFFFFFF);
    for (uint32_t i = 1; i < 4; ++i) p.data[i] = vf_u32();
    return p;
}
ENTRY(text_write)
{
    const uint32_t type = vf_part(16); const universal_packet p = packet(type); const uint32_t n = words_of(type);
    Buf buf; std::ostream o(&buf); static const std::ios_base::fmtflags bases[] = { std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags(0) };
    std::ios_base::fmtflags f = bases[vf_choose(4)] | std::ios_base::skipws; const bool upper = vf_choose(2); if (upper) f |= std::ios_base::uppercase; if (vf_choose(2)) f |= std::ios_base::showpos;
    if (vf_choose(2)) f |= std::ios_base::right; o.flags(f); const char fill = char(vf_u8()); o.fill(fill);
    o << p;
    char e[128]; const uint32_t len = text(e, 0, p.data, n, upper);
    CHECKM(buf.written() == len, "length of the text"); for (uint32_t i = 0; i < len; ++i) CHECKM(buf.b[i] == e[i], "words as 8 hex digits, separated by spaces");
    CHECKM(o.flags() == f, "flags unchanged"); CHECKM(o.fill() == fill, "fill character unchanged"); CHECKM(o.width() == 0 && o.good(), "state");
}
// packets separated by white space
ENTRY(text_read)
{
    const uint32_t t1 = vf_part(16); const universal_packet p = packet(t1), q = packet(vf_choose(2) ? 4 : 2); const bool upper = vf_choose(2); const uint32_t lead = vf_choose(2), trail = vf_choose(2);
    char b[128]; uint32_t at = 0; for (uint32_t i = 0; i < lead; ++i) b[at++] = ' ';
    const uint32_t e1 = at = text(b, at, p.data, words_of(t1), upper); const uint32_t sep = vf_choose(3); b[at++] = sep == 0 ? '\n' : sep == 1 ? ' ' : '\t'; if (sep == 2) b[at++] = '\n';
    at = text(b, at, q.data, words_of(q.data[0] >> 28), false); const uint32_t e2 = at; if (trail) b[at++] = '\n';
    Buf buf(at); memcpy(buf.b, b, at); std::istream in(&buf); std::ios_base::fmtflags f = std::ios_base::skipws; const uint32_t base = vf_choose(3); f |= base == 0 ? std::ios_base::dec : base == 1 ? std::ios_base::hex : std::ios_base::fmtflags(0); in.flags(f);
    universal_packet x, y; in >> x; CHECKM(in.good(), "first packet read"); CHECKM(x == p, "first packet"); CHECKM(buf.consumed() == e1, "nothing behind the packet is consumed"); CHECKM(in.flags() == f, "flags unchanged");
    in >> y; CHECKM(!in.fail() && in.eof() == !trail, "second packet read"); CHECKM(y == q, "second packet"); CHECKM(in.flags() == f, "flags unchanged"); CHECK(buf.consumed() == e2);
    universal_packet z; in >> z; CHECKM(in.fail() && in.eof(), "no third packet"); CHECKM(in.flags() == f, "flags unchanged");
}
// a text that ends or is not hexadecimal within a packet is not read as a packet
ENTRY(text_truncated)
{
    const uint32_t t1 = vf_part(16), n = words_of(t1); const universal_packet p = packet(t1); char b[128]; const uint32_t have = vf_choose(n); uint32_t at = text(b, 0, p.data, have, false);
    const uint32_t how = vf_choose(3); if (how >= 1) b[at++] = ' '; if (how == 2) { const uint8_t c = vf_u8(); vf_assume(c > ' ' && c < 127 && c != '+' && c != '-' && !(c >= '0' && c <= '9') && !((c | 32) >= 'a' && (c | 32) <= 'f')); b[at++] = char(c); }
    Buf buf(at); memcpy(buf.b, b, at); std::istream in(&buf); const auto f = in.flags(); universal_packet x; in >> x;
    CHECKM(in.fail(), "incomplete packet reported"); CHECKM(in.flags() == f, "flags unchanged");
}
// a number that does not fit into a word is not a packet
ENTRY(text_overlong)
{
    const uint32_t t1 = vf_part(16), n = words_of(t1); const universal_packet p = packet(t1); char b[128]; const uint32_t bad = vf_choose(n);
    uint32_t at = text(b, 0, p.data, bad, false); if (bad) b[at++] = ' ';
    const uint8_t lead = vf_u8(); vf_assume(lead >= 1 && lead < 16); b[at++] = hex(lead, false);
    for (int k = 7; k >= 0; --k) b[at++] = hex((p.data[bad] >> (4 * k)) & 15, false);
    for (uint32_t i = bad + 1; i < n; ++i) { b[at++] = ' '; at = text(b, at, p.data + i, 1, false); }
    Buf buf(at); memcpy(buf.b, b, at); std::istream in(&buf); const auto f = in.flags(); universal_packet x; in >> x;
    CHECKM(in.fail(), "overlong word reported"); CHECKM(in.flags() == f, "flags unchanged");
}
