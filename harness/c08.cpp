// C08: translation between the protocols
#include "pk.h"
#include <midi/channel_voice_message.h>
using namespace midi;
static uint32_t up(uint32_t v, unsigned sb, unsigned db)
{
    const unsigned sh = db - sb; uint32_t r = v << sh; const uint32_t center = 1u << (sb - 1);
    if (v <= center) return r;
    const unsigned rb = sb - 1; uint32_t rep = v & ((1u << rb) - 1);
    if (sh > rb) rep <<= sh - rb; else rep >>= rb - sh;
    while (rep) { r |= rep; rep >>= rb; }
    return r;
}
// controllers that form part of compound messages: bank select, data entry, (N)RPN, high resolution velocity prefix
static bool compound(unsigned c) { return c == 0 || c == 6 || c == 32 || c == 38 || c == 88 || (c >= 98 && c <= 101); }
// returns: is there a translation, and its words
static bool ref12(uint8_t g, unsigned k, uint8_t ch, uint8_t d1, uint8_t d2, uint32_t& a, uint32_t& b)
{
    b = 0;
    switch (k)
    {
    case 9: if (d2 == 0) { a = w0(4, g, 0x80 | ch, d1, 0); b = up(64, 7, 16) << 16; return true; } // fallthrough
    case 8: a = w0(4, g, (k << 4) | ch, d1, 0); b = up(d2, 7, 16) << 16; return true;
    case 10: a = w0(4, g, 0xA0 | ch, d1, 0); b = up(d2, 7, 32); return true;
    case 11: if (compound(d1)) return false; a = w0(4, g, 0xB0 | ch, d1, 0); b = up(d2, 7, 32); return true;
    case 12: a = w0(4, g, 0xC0 | ch, 0, 0); b = uint32_t(d1) << 24; return true;
    case 13: a = w0(4, g, 0xD0 | ch, 0, 0); b = up(d1, 7, 32); return true;
    case 14: a = w0(4, g, 0xE0 | ch, 0, 0); b = up(d1 + 128u * d2, 14, 32); return true;
    }
    return false;
}
static bool ref21(const universal_packet& p, uint32_t& a)
{
    const uint8_t g = raw(p, 0) & 15, ch = raw(p, 1) & 15, n = raw(p, 2) & 0x7F; const uint32_t d = p.data[1];
    switch (raw(p, 1) >> 4)
    {
    case 8: if (raw(p, 3)) return false; a = w0(2, g, 0x80 | ch, n, d >> 25); return true;
    case 9: if (raw(p, 3)) return false; a = w0(2, g, 0x90 | ch, n, (d >> 25) ? d >> 25 : 1); return true;
    case 10: a = w0(2, g, 0xA0 | ch, n, d >> 25); return true;
    case 11: if (compound(n)) return false; a = w0(2, g, 0xB0 | ch, n, d >> 25); return true;
    case 12: if (raw(p, 3) & 1) return false; a = w0(2, g, 0xC0 | ch, (d >> 24) & 0x7F, 0); return true;
    case 13: a = w0(2, g, 0xD0 | ch, d >> 25, 0); return true;
    case 14: a = w0(2, g, 0xE0 | ch, (d >> 18) & 0x7F, d >> 25); return true;
    }
    return false;
}
ENTRY(midi1_to_midi2)
{
    const auto p = any_packet_of_type(2);
    uint32_t a = 0, b = 0; const uint8_t g = raw(p, 0) & 15, ch = raw(p, 1) & 15, d1 = raw(p, 2) & 0x7F, d2 = raw(p, 3) & 0x7F; const unsigned k = raw(p, 1) >> 4;
    const bool e = ref12(g, k, ch, d1, d2, a, b);
    const auto v = as_midi1_channel_voice_message_view(p);
    CHECK(v.has_value()); if (!v) return;
    const auto m = as_midi2_channel_voice_message(*v);
    CHECK(m.has_value() == e);
    if (!m || !e) return;
    CHECK(words(*m, a, b));
    const auto v2 = as_midi2_channel_voice_message_view(*m);
    CHECK(v2.has_value()); if (!v2) return;
    const auto back = as_midi1_channel_voice_message(*v2);
    CHECK(back.has_value()); if (!back) return;
    const bool zero = k == 9 && d2 == 0, one = k == 12 || k == 13;
    CHECK(words(*back, w0(2, g, (zero ? 0x80 : k << 4) | ch, d1, zero ? 64 : one ? 0 : d2)));
    vf_observe(m->data[0]); vf_observe(m->data[1]); vf_observe(back->data[0]);
}
ENTRY(midi2_to_midi1)
{
    const auto p = any_packet_of_type(4);
    uint32_t a = 0; const bool e = ref21(p, a);
    const auto v = as_midi2_channel_voice_message_view(p);
    CHECK(v.has_value()); if (!v) return;
    const auto m = as_midi1_channel_voice_message(*v);
    CHECK(m.has_value() == e);
    if (!m || !e) return;
    CHECK(words(*m, a));
    CHECK((raw(*m, 1) >> 4) != 9 || raw(*m, 3) != 0);
    vf_observe(m->data[0]);
}
