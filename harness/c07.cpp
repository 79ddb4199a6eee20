// C07: protocol independent helpers
#include "pk.h"
#include <midi/channel_voice_message.h>
using namespace midi;
// MIDI 2.0 bit-repeat upscaling
static uint32_t up(uint32_t v, unsigned sb, unsigned db)
{
    const unsigned sh = db - sb; uint32_t r = v << sh; const uint32_t center = 1u << (sb - 1);
    if (v <= center) return r;
    const unsigned rb = sb - 1; uint32_t rep = v & ((1u << rb) - 1);
    if (sh > rb) rep <<= sh - rb; else rep >>= rb - sh;
    while (rep) { r |= rep; rep >>= rb; }
    return r;
}
static unsigned kind(const universal_packet& p) { const unsigned t = p.data[0] >> 28; return (t == 2 || t == 4) ? raw(p, 1) >> 4 : 99; }
ENTRY(predicates)
{
    const auto p = any_packet(); const unsigned t = p.data[0] >> 28, k = kind(p);
    CHECK(!(is_note_on_message(p) && is_note_off_message(p))); // never both, whatever the velocity byte
    if (k == 9) CHECK(is_note_on_message(p) || is_note_off_message(p));
    if (t == 2) vf_assume(raw(p, 3) < 0x80);
    const bool zero = t == 2 && k == 9 && raw(p, 3) == 0;
    CHECK(is_note_on_message(p) == (k == 9 && !zero));
    CHECK(is_note_off_message(p) == (k == 8 || zero));
    CHECK(is_poly_pressure_message(p) == (k == 10)); CHECK(is_control_change_message(p) == (k == 11)); CHECK(is_program_change_message(p) == (k == 12));
    CHECK(is_channel_pressure_message(p) == (k == 13)); CHECK(is_channel_pitch_bend_message(p) == (k == 14));
    const uint8_t s = vf_u8();
    CHECK(is_channel_voice_message_with_status(p, s) == (k == (s >> 4) && (s & 15) == 0));
    vf_observe(is_note_on_message(p)); vf_observe(is_note_off_message(p));
}
ENTRY(values)
{
    const auto p = any_packet(); const unsigned t = p.data[0] >> 28;
    vf_assume(t == 2 || t == 4);
    const unsigned k = raw(p, 1) >> 4; const uint8_t d1 = raw(p, 2) & 0x7F, d2 = raw(p, 3) & 0x7F;
    if (t == 2 && k == 9) vf_assume(raw(p, 3) < 0x80);
    if (k >= 8 && k <= 10) CHECK(get_note_nr(p) == d1);
    if (k == 8 || k == 9)
    {
        const uint32_t e = t == 4 ? p.data[1] >> 16 : up(k == 9 && d2 == 0 ? 64 : d2, 7, 16);
        CHECK(get_note_velocity(p).value == e);
        CHECK(get_note_pitch(p).value == (t == 4 && k == 9 && raw(p, 3) == 3 ? p.data[1] & 0xFFFF : uint32_t(d1) << 9));
        vf_observe(get_note_velocity(p).value);
    }
    if (k == 10) CHECK(get_poly_pressure_value(p).value == (t == 4 ? p.data[1] : up(d2, 7, 32)));
    if (k == 11) { CHECK(get_controller_nr(p) == d1); CHECK(get_controller_value(p).value == (t == 4 ? p.data[1] : up(d2, 7, 32))); }
    if (k == 12) CHECK(get_program_value(p) == (t == 4 ? (p.data[1] >> 24) & 0x7F : d1));
    if (k == 13) CHECK(get_channel_pressure_value(p).value == (t == 4 ? p.data[1] : up(d1, 7, 32)));
    if (k == 14) CHECK(get_channel_pitch_bend_value(p).value == (t == 4 ? p.data[1] : up(d1 + 128u * d2, 14, 32)));
    vf_observe(k);
}
// the same message in both protocols gives the same answers
ENTRY(equivalence)
{
    const uint8_t g = vf_u4(), ch = vf_u4(), n = vf_u7(), v7 = vf_u7(); const uint16_t v14 = vf_u14();
    const velocity ve{ uint7_t(v7) }; const controller_value cv{ uint7_t(v7) }; const pitch_bend pb{ uint14_t(v14) };
    { auto a = make_midi1_note_off_message(g, ch, n, ve); auto b = make_midi2_note_off_message(g, ch, n, ve);
      CHECK(is_note_off_message(a) && is_note_off_message(b)); CHECK(get_note_nr(a) == get_note_nr(b)); CHECK(get_note_velocity(a) == get_note_velocity(b)); CHECK(get_note_pitch(a) == get_note_pitch(b)); }
    if (v7) { auto a = make_midi1_note_on_message(g, ch, n, ve); auto b = make_midi2_note_on_message(g, ch, n, ve);
      CHECK(is_note_on_message(a) && is_note_on_message(b)); CHECK(get_note_nr(a) == get_note_nr(b)); CHECK(get_note_velocity(a) == get_note_velocity(b)); CHECK(get_note_pitch(a) == get_note_pitch(b)); }
    { auto a = make_midi1_poly_pressure_message(g, ch, n, cv); auto b = make_midi2_poly_pressure_message(g, ch, n, cv);
      CHECK(is_poly_pressure_message(a) && is_poly_pressure_message(b)); CHECK(get_note_nr(a) == get_note_nr(b)); CHECK(get_poly_pressure_value(a).value == get_poly_pressure_value(b).value); }
    { auto a = make_midi1_control_change_message(g, ch, n, cv); auto b = make_midi2_control_change_message(g, ch, n, cv);
      CHECK(is_control_change_message(a) && is_control_change_message(b)); CHECK(get_controller_nr(a) == get_controller_nr(b)); CHECK(get_controller_value(a).value == get_controller_value(b).value); }
    { auto a = make_midi1_program_change_message(g, ch, n); auto b = make_midi2_program_change_message(g, ch, n);
      CHECK(is_program_change_message(a) && is_program_change_message(b)); CHECK(get_program_value(a) == n && get_program_value(b) == n); }
    { auto a = make_midi1_channel_pressure_message(g, ch, cv); auto b = make_midi2_channel_pressure_message(g, ch, cv);
      CHECK(is_channel_pressure_message(a) && is_channel_pressure_message(b)); CHECK(get_channel_pressure_value(a).value == get_channel_pressure_value(b).value); }
    { auto a = make_midi1_pitch_bend_message(g, ch, pb); auto b = make_midi2_pitch_bend_message(g, ch, pb);
      CHECK(is_channel_pitch_bend_message(a) && is_channel_pitch_bend_message(b)); CHECK(get_channel_pitch_bend_value(a).value == get_channel_pitch_bend_value(b).value); vf_observe(get_channel_pitch_bend_value(a).value); }
}
