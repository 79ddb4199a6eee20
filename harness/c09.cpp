// C09: utility and system messages
#include "pk.h"
#include <midi/utility_message.h>
#include <midi/system_message.h>
using namespace midi;
ENTRY(utility)
{
    const uint8_t st = vf_u8(); const uint16_t d = vf_u16();
    const auto m = make_utility_message(st, d);
    CHECK(words(m, (uint32_t(st) << 16) | d));
    CHECK(words(utility_message{ st, d }, (uint32_t(st) << 16) | d));
    CHECK(words(utility_message{ st }, uint32_t(st) << 16));
    CHECK(words(utility_message{}, 0));
    CHECK(m.is_utility_message());
    const utility_message_view v{ m };
    CHECK(v.status() == st); CHECK(v.payload() == d);
    CHECK(utility_status::noop == 0 && utility_status::jr_clock == 0x10 && utility_status::jr_timestamp == 0x20);
    const auto p = any_packet_of_type(0);
    const utility_message_view u{ p };
    CHECK(u.status() == raw(p, 1)); CHECK(u.payload() == uint16_t(p.data[0]));
    vf_observe(m.data[0]); vf_observe(u.payload());
}
ENTRY(system_messages)
{
    const uint8_t g = vf_u4(), st = vf_u8(), d1 = vf_u7(), d2 = vf_u7(); const uint16_t pos = vf_u14();
    { const auto m = make_system_message(g, st, d1, d2); CHECK(words(m, w0(1, g, st, d1, d2))); CHECK(words(system_message(g, st, d1, d2), w0(1, g, st, d1, d2)));
      const auto v = as_system_message_view(m); CHECK(v.has_value()); if (!v) return;
      CHECK(v->group() == g); CHECK(v->status() == st); CHECK(v->data_byte_1() == d1); CHECK(v->data_byte_2() == d2); CHECK(v->get_song_position() == (st == 0xF2 ? d1 + 128u * d2 : 0u)); vf_observe(m.data[0]); }
    { const auto m = make_system_message(g, st, d1); CHECK(words(m, w0(1, g, st, d1, 0))); }
    { const auto m = make_system_message(g, st); CHECK(words(m, w0(1, g, st, 0, 0))); }
    { const auto m = make_song_position_message(g, pos); CHECK(words(m, w0(1, g, 0xF2, pos & 0x7F, pos >> 7)));
      const auto v = as_system_message_view(m); CHECK(v.has_value()); if (!v) return; CHECK(v->get_song_position() == pos); CHECK(v->group() == g); CHECK(v->status() == 0xF2); }
    CHECK(words(system_message{}, 0x10000000u));
    CHECK(system_status::mtc_quarter_frame == 0xF1 && system_status::song_position == 0xF2 && system_status::song_select == 0xF3 && system_status::tune_request == 0xF6);
    CHECK(system_status::clock == 0xF8 && system_status::start == 0xFA && system_status::cont == 0xFB && system_status::stop == 0xFC && system_status::active_sense == 0xFE && system_status::reset == 0xFF);
}
ENTRY(views)
{
    const auto p = any_packet(); const bool is = (p.data[0] >> 28) == 1;
    CHECK(is_system_message(p) == is);
    const auto v = as_system_message_view(p);
    CHECK(v.has_value() == is);
    if (v && is)
    {
        CHECK(v->group() == (raw(p, 0) & 15)); CHECK(v->status() == raw(p, 1)); CHECK(v->data_byte_1() == (raw(p, 2) & 0x7F)); CHECK(v->data_byte_2() == (raw(p, 3) & 0x7F));
        CHECK(v->get_song_position() == (raw(p, 1) == 0xF2 ? (raw(p, 2) & 0x7F) + 128u * (raw(p, 3) & 0x7F) : 0u));
        vf_observe(v->get_song_position());
    }
}
