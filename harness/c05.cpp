// C05: MIDI 1 channel voice messages
#include "pk.h"
#include <midi/midi1_channel_voice_message.h>
using namespace midi;
static void check_view(const universal_packet& p, uint8_t g, uint8_t st, uint8_t ch, uint8_t d1, uint8_t d2)
{
    CHECK(is_midi1_channel_voice_message(p));
    auto v = as_midi1_channel_voice_message_view(p);
    CHECK(v.has_value());
    if (!v) return;
    CHECK(v->group() == g); CHECK(v->status() == st); CHECK(v->channel() == ch); CHECK(v->data_byte_1() == d1); CHECK(v->data_byte_2() == d2);
    CHECK(v->get_14bit_value() == d1 + 128u * d2);
}
static void check_msg(const midi1_channel_voice_message& m, uint8_t g, uint8_t st, uint8_t ch, uint8_t d1, uint8_t d2)
{
    CHECK(words(m, w0(2, g, st | ch, d1, d2)));
    check_view(m, g, st, ch, d1, d2);
    vf_observe(m.data[0]);
}
ENTRY(build)
{
    const uint8_t g = vf_u4(), ch = vf_u4(), n = vf_u7(), d2 = vf_u7(), sn = vf_u8();
    const uint16_t vel = vf_u16(); const uint32_t val = vf_u32();
    vf_assume(sn >= 8 && sn < 15);
    const uint8_t s = uint8_t(sn << 4);
    switch (vf_choose(10))
    {
    case 0: check_msg(make_midi1_note_off_message(g, ch, n, velocity{ vel }), g, 0x80, ch, n, uint8_t(vel >> 9)); break;
    case 1: check_msg(make_midi1_note_on_message(g, ch, n, velocity{ vel }), g, 0x90, ch, n, uint8_t(vel >> 9)); break;
    case 2: check_msg(make_midi1_poly_pressure_message(g, ch, n, controller_value{ val }), g, 0xA0, ch, n, uint8_t(val >> 25)); break;
    case 3: check_msg(make_midi1_control_change_message(g, ch, n, controller_value{ val }), g, 0xB0, ch, n, uint8_t(val >> 25)); break;
    case 4: check_msg(make_midi1_program_change_message(g, ch, n), g, 0xC0, ch, n, 0); break;
    case 5: check_msg(make_midi1_channel_pressure_message(g, ch, controller_value{ val }), g, 0xD0, ch, uint8_t(val >> 25), 0); break;
    case 6: check_msg(make_midi1_pitch_bend_message(g, ch, pitch_bend{ val }), g, 0xE0, ch, uint8_t((val >> 18) & 0x7F), uint8_t(val >> 25)); break;
    case 7: check_msg(make_midi1_channel_voice_message(g, s, ch, n, d2), g, s, ch, n, d2); break;
    case 8: check_msg(midi1_channel_voice_message(g, uint8_t(s | ch), n, d2), g, s, ch, n, d2); break;
    case 9: check_msg(make_midi1_note_off_message(g, ch, n), g, 0x80, ch, n, 64); break;
    }
}
ENTRY(views)
{
    const auto p = any_packet();
    const bool is = (p.data[0] >> 28) == 2;
    CHECK(is_midi1_channel_voice_message(p) == is);
    CHECK(as_midi1_channel_voice_message_view(p).has_value() == is);
    if (is) { check_view(p, raw(p, 0) & 15, raw(p, 1) & 0xF0, raw(p, 1) & 15, raw(p, 2) & 0x7F, raw(p, 3) & 0x7F); CHECK(words(midi1_channel_voice_message(p), p.data[0], p.data[1], p.data[2], p.data[3])); }
    vf_observe(is_midi1_channel_voice_message(p));
}
