// C06: MIDI 2 channel voice messages
#include "pk.h"
#include <midi/midi2_channel_voice_message.h>
using namespace midi;
static void check_view(const universal_packet& p, uint8_t g, uint8_t st, uint8_t ch, uint8_t b3, uint8_t b4, uint32_t d)
{
    CHECK(is_midi2_channel_voice_message(p));
    auto v = as_midi2_channel_voice_message_view(p);
    CHECK(v.has_value());
    if (!v) return;
    CHECK(v->group() == g); CHECK(v->status() == st); CHECK(v->channel() == ch); CHECK(v->byte3() == b3); CHECK((v->byte4() & 0x7F) == (b4 & 0x7F)); if (st == 0x00 || st == 0x10 || st == 0x80 || st == 0x90) CHECK(v->byte4() == b4); // 8-bit indices and attribute types CHECK(v->data() == d);
}
static void predicates(const universal_packet& p)
{
    const bool m2 = (p.data[0] >> 28) == 4; const unsigned s = m2 ? (raw(p, 1) >> 4) : 99;
    CHECK(is_midi2_channel_voice_message(p) == m2);
    CHECK(as_midi2_channel_voice_message_view(p).has_value() == m2);
    CHECK(is_registered_per_note_controller_message(p) == (s == 0));
    CHECK(is_assignable_per_note_controller_message(p) == (s == 1));
    CHECK(is_registered_controller_message(p) == (s == 2));
    CHECK(is_assignable_controller_message(p) == (s == 3));
    CHECK(is_per_note_pitch_bend_message(p) == (s == 6));
    CHECK(is_registered_per_note_controller_pitch_message(p) == (s == 0 && raw(p, 3) == 3));
    CHECK(is_note_on_with_pitch_7_9(p) == (s == 9 && raw(p, 3) == 3));
    const uint8_t a = vf_u8();
    CHECK(is_note_on_with_attribute(p, a) == (s == 9 && raw(p, 3) == a));
    CHECK(is_note_off_with_attribute(p, a) == (s == 8 && raw(p, 3) == a));
    CHECK(is_pitch_bend_sensitivity_message(p) == (s == 2 && raw(p, 2) == 0 && raw(p, 3) == 0));
    CHECK(is_per_note_pitch_bend_sensitivity_message(p) == (s == 2 && raw(p, 2) == 0 && raw(p, 3) == 7));
    CHECK(is_midi2_registered_controller_message(p) == (s == 2)); CHECK(is_midi2_assignable_controller_message(p) == (s == 3));
    CHECK(is_midi2_registered_per_note_controller_message(p) == (s == 0)); CHECK(is_midi2_assignable_per_note_controller_message(p) == (s == 1));
    CHECK(is_midi2_per_note_pitch_bend_message(p) == (s == 6));
}
static void check_msg(const midi2_channel_voice_message& m, uint8_t g, uint8_t st, uint8_t ch, uint8_t b3, uint8_t b4, uint32_t d)
{
    CHECK(words(m, w0(4, g, st | ch, b3, b4), d));
    check_view(m, g, st, ch, b3, b4, d);
    predicates(m);
    vf_observe(m.data[0]); vf_observe(m.data[1]);
}
ENTRY(build)
{
    const uint8_t g = vf_u4(), ch = vf_u4(), n = vf_u7(), i2 = vf_u7(), a = vf_u8(), sn = vf_u4();
    const uint16_t vel = vf_u16(), ad = vf_u16(); const uint32_t val = vf_u32(); const uint16_t bank = vf_u14();
    const uint32_t vd = (uint32_t(vel) << 16) | ad;
    switch (vf_choose(19))
    {
    case 0: check_msg(make_midi2_note_off_message(g, ch, n, velocity{ vel }, a, ad), g, 0x80, ch, n, a, vd); break;
    case 1: check_msg(make_midi2_note_off_message(g, ch, n, velocity{ vel }), g, 0x80, ch, n, 0, uint32_t(vel) << 16); break;
    case 2: check_msg(make_midi2_note_on_message(g, ch, n, velocity{ vel }), g, 0x90, ch, n, 0, uint32_t(vel) << 16); break;
    case 3: check_msg(make_midi2_note_on_message(g, ch, n, velocity{ vel }, pitch_7_9{ ad }), g, 0x90, ch, n, 3, vd); break;
    case 4: { auto m = make_midi2_note_on_message(g, ch, n, velocity{ vel }, a, ad); check_msg(m, g, 0x90, ch, n, a, vd);
              CHECK(get_midi2_note_attribute(m) == a); CHECK(get_midi2_note_attribute_data(m) == ad); break; }
    case 5: check_msg(make_midi2_poly_pressure_message(g, ch, n, controller_value{ val }), g, 0xA0, ch, n, 0, val); break;
    case 6: { auto m = make_registered_per_note_controller_message(g, ch, n, a, controller_value{ val }); check_msg(m, g, 0x00, ch, n, a, val); CHECK(get_per_note_controller_index(m) == a); break; }
    case 7: { auto m = make_assignable_per_note_controller_message(g, ch, n, a, controller_value{ val }); check_msg(m, g, 0x10, ch, n, a, val); CHECK(get_midi2_per_note_controller_index(m) == a); break; }
    case 8: check_msg(make_per_note_management_message(g, ch, n, a & 3), g, 0xF0, ch, n, a & 3, 0); break;
    case 9: check_msg(make_midi2_control_change_message(g, ch, n, controller_value{ val }), g, 0xB0, ch, n, 0, val); break;
    case 10: check_msg(make_registered_controller_message(g, ch, n, i2, controller_value{ val }), g, 0x20, ch, n, i2, val); break;
    case 11: check_msg(make_assignable_controller_message(g, ch, n, i2, controller_value{ val }), g, 0x30, ch, n, i2, val); break;
    case 12: check_msg(make_relative_registered_controller_message(g, ch, n, i2, controller_increment{ int32_t(val) }), g, 0x40, ch, n, i2, val); break;
    case 13: check_msg(make_relative_assignable_controller_message(g, ch, n, i2, controller_increment{ int32_t(val) }), g, 0x50, ch, n, i2, val); break;
    case 14: check_msg(make_midi2_program_change_message(g, ch, n), g, 0xC0, ch, 0, 0, uint32_t(n) << 24); break;
    case 15: check_msg(make_midi2_program_change_message(g, ch, n, bank), g, 0xC0, ch, 0, 1, (uint32_t(n) << 24) | ((bank >> 7) << 8) | (bank & 0x7F)); break;
    case 16: check_msg(make_midi2_channel_pressure_message(g, ch, controller_value{ val }), g, 0xD0, ch, 0, 0, val); break;
    case 17: check_msg(make_midi2_pitch_bend_message(g, ch, pitch_bend{ val }), g, 0xE0, ch, 0, 0, val); break;
    case 18: { auto m = make_per_note_pitch_bend_message(g, ch, n, pitch_bend{ val }); check_msg(m, g, 0x60, ch, n, 0, val); CHECK(get_per_note_pitch_bend_value(m).value == val);
               check_msg(make_midi2_channel_voice_message(g, uint8_t(sn << 4), ch, n, i2, val), g, uint8_t(sn << 4), ch, n, i2, val); break; }
    }
}
ENTRY(views)
{
    const auto p = any_packet();
    predicates(p);
    if ((p.data[0] >> 28) == 4)
    {
        check_view(p, raw(p, 0) & 15, raw(p, 1) & 0xF0, raw(p, 1) & 15, raw(p, 2) & 0x7F, raw(p, 3), p.data[1]);
        CHECK(get_midi2_note_attribute(p) == raw(p, 3)); CHECK(get_midi2_note_attribute_data(p) == uint16_t(p.data[1])); CHECK(get_per_note_controller_index(p) == raw(p, 3));
        CHECK(get_per_note_pitch_bend_value(p).value == p.data[1]); CHECK(get_per_note_pitch_bend_sensitivity_value(p).value == p.data[1]);
        CHECK(get_pitch_bend_sensitivity_value(p).value == (p.data[1] & 0xFFFC0000u));
    }
    vf_observe(is_registered_controller_message(p));
}
