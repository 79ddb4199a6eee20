// C10: flex data messages
#include "pk.h"
#include <midi/flex_data_message.h>
using namespace midi;
static void check_view(const universal_packet& p)
{
    CHECK(is_flex_data_message(p));
    const auto v = as_flex_data_message_view(p);
    CHECK(v.has_value()); if (!v) return;
    CHECK(v->group() == (raw(p, 0) & 15)); CHECK(unsigned(v->format()) == unsigned(raw(p, 1) >> 6)); CHECK(unsigned(v->address()) == ((raw(p, 1) >> 4) & 3u)); CHECK(v->channel() == (raw(p, 1) & 15));
    CHECK(v->status_bank() == raw(p, 2)); CHECK(v->status() == raw(p, 3)); CHECK(v->data1() == p.data[1]); CHECK(v->data2() == p.data[2]); CHECK(v->data3() == p.data[3]);
}
static void check_msg(const flex_data_message& m, uint8_t g, unsigned f, unsigned a, uint8_t ch, uint8_t bank, uint8_t st, uint32_t d1, uint32_t d2, uint32_t d3)
{
    CHECK(words(m, w0(0xD, g, (f << 6) | (a << 4) | ch, bank, st), d1, d2, d3));
    CHECK(unsigned(m.format()) == f); CHECK(unsigned(m.address()) == a); CHECK(m.status_bank() == bank); CHECK(m.status() == st); CHECK(m.channel() == ch);
    check_view(m);
    vf_observe(m.data[0]); vf_observe(m.data[1]); vf_observe(m.data[2]);
}
ENTRY(build)
{
    const uint8_t g = vf_u4(), f = vf_u8(), a = vf_u8(), ch = vf_u4(), bank = vf_u8(), st = vf_u8(); const uint32_t d1 = vf_u32(), d2 = vf_u32(), d3 = vf_u32();
    vf_assume(f < 4 && a < 2 && (a == 0 || ch == 0));
    const auto F = packet_format(f); const auto A = packet_address(a);
    const uint8_t b[6] = { uint8_t(d1), uint8_t(d1 >> 8), uint8_t(d1 >> 16), uint8_t(d1 >> 24), uint8_t(d2), uint8_t(d2 >> 8) };
    switch (vf_choose(9))
    {
    case 0: check_msg(make_flex_data_message(g, F, A, ch, bank, st, d1, d2, d3), g, f, a, ch, bank, st, d1, d2, d3); break;
    case 1: check_msg(make_flex_data_message(g, F, A, ch, bank, st), g, f, a, ch, bank, st, 0, 0, 0); break;
    case 2: check_msg(flex_data_message(g, F, A, ch, bank, st, d1, d2, d3), g, f, a, ch, bank, st, d1, d2, d3); break;
    case 3: check_msg(make_set_tempo_message(g, d1), g, 0, 1, 0, 0, 0, d1, 0, 0); break;
    case 4: check_msg(make_set_time_signature_message(g, b[0], b[1], b[2]), g, 0, 1, 0, 0, 1, (uint32_t(b[0]) << 24) | (b[1] << 16) | (b[2] << 8), 0, 0); break;
    case 5: check_msg(make_set_metronome_message(g, b[0], b[1], b[2], b[3], b[4], b[5]), g, 0, 1, 0, 0, 2, (uint32_t(b[0]) << 24) | (b[1] << 16) | (b[2] << 8) | b[3], (uint32_t(b[4]) << 24) | (b[5] << 16), 0); break;
    case 6: check_msg(make_set_key_signature_message(g, A, ch, b[0] & 15, b[1] & 15), g, 0, a, ch, 0, 5, ((uint32_t(b[0] & 15) << 4) | (b[1] & 15)) << 24, 0, 0); break;
    case 7: check_msg(make_set_chord_message(g, A, ch, d1, d2, d3), g, 0, a, ch, 0, 6, d1, d2, d3); break;
    case 8: CHECK(words(flex_data_message{ g }, 0xD0000000u | (uint32_t(g) << 24))); CHECK(words(flex_data_message{}, 0xD0000000u)); break;
    }
}
ENTRY(text)
{
    const uint8_t g = vf_u4(), f = vf_u8(), a = vf_u8(), ch = vf_u4(), bank = vf_u8(), st = vf_u8();
    const uint32_t n = vf_choose(13);
    vf_assume(f < 4 && a < 2 && (a == 0 || ch == 0) && (f == 0 || f == 3 || n == 12));
    char* t = new char[n]; // exact size: reading past the text is out of bounds
    uint32_t w[3] = { 0, 0, 0 };
    for (uint32_t i = 0; i < n; ++i) { t[i] = char(vf_u8()); vf_assume(t[i] != 0); w[i / 4] |= uint32_t(uint8_t(t[i])) << (24 - 8 * (i % 4)); }
    const auto m = make_flex_data_text_message(g, packet_format(f), packet_address(a), ch, bank, st, std::string_view(t, n));
    CHECK(words(m, w0(0xD, g, (f << 6) | (a << 4) | ch, bank, st), w[0], w[1], w[2]));
    check_view(m);
    const std::string s = m.payload_as_string(), u = as_flex_data_message_view(m)->payload_as_string();
    CHECK(s.size() == n); CHECK(u.size() == n);
    for (uint32_t i = 0; i < n && i < s.size() && i < u.size(); ++i) { CHECK(s[i] == t[i]); CHECK(u[i] == t[i]); }
    vf_observe(s.size()); vf_observe(m.data[1]);
    delete[] t;
}
ENTRY(views)
{
    const auto p = any_packet(); const bool is = (p.data[0] >> 28) == 0xD;
    CHECK(is_flex_data_message(p) == is); CHECK(as_flex_data_message_view(p).has_value() == is);
    if (is) check_view(p);
    vf_observe(is_flex_data_message(p));
}
// reading text from an arbitrary packet: the bytes up to the first NUL, never more than 12
ENTRY(any_text)
{
    const auto p = any_packet_of_type(0xD);
    const std::string s = flex_data_message::payload_as_string(p);
    CHECK(s.size() <= 12);
    for (unsigned i = 0; i < 12; ++i) { if (i < s.size()) { CHECK(raw(p, 4 + i) != 0); CHECK(uint8_t(s[i]) == raw(p, 4 + i)); } else if (i == s.size()) CHECK(raw(p, 4 + i) == 0); }
    vf_observe(s.size());
}
