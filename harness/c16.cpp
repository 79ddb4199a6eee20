// C16: exclusive data packets
#include "pk.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
using namespace midi;
ENTRY(build7)
{
    const uint8_t g = vf_u4(); const uint32_t f = vf_choose(4), n = vf_choose(7);
    auto p = f == 0 ? make_sysex7_complete_packet(g) : f == 1 ? make_sysex7_start_packet(g) : f == 2 ? make_sysex7_continue_packet(g) : make_sysex7_end_packet(g);
    uint8_t b[6] = {};
    CHECK(p.payload_size() == 0);
    for (uint32_t i = 0; i < n; ++i) { const uint8_t x = vf_u8(); b[i] = x & 0x7F; p.add_payload_byte(x); CHECK(p.payload_size() == i + 1); }
    CHECKM(words(p, w0(3, g, f * 16 + n, b[0], b[1]), (uint32_t(b[2]) << 24) | (uint32_t(b[3]) << 16) | (uint32_t(b[4]) << 8) | b[5]), "exactly format, group, size and payload");
    CHECK(unsigned(p.format()) == f && p.group() == g && p.type() == packet_type::data && p.size() == 2);
    for (uint32_t i = 0; i < n; ++i) CHECK(p.payload_byte(i) == b[i]);
    CHECK(is_data_message(p) && is_sysex7_packet(p) && !is_sysex8_packet(p));
    auto v = as_sysex7_packet_view(p); CHECK(v.has_value()); if (!v) return;
    CHECK(v->group() == g && unsigned(v->format()) == f && v->status() == f * 16 && v->payload_size() == n);
    for (uint32_t i = 0; i < n; ++i) CHECK(v->payload_byte(i) == b[i]);
    // overwrite one byte and the size
    const uint32_t at = vf_choose(6), m = vf_choose(7); const uint8_t x = vf_u8();
    p.set_payload_byte(at, x); p.set_payload_size(m);
    b[at] = x & 0x7F;
    CHECKM(words(p, w0(3, g, f * 16 + m, b[0], b[1]), (uint32_t(b[2]) << 24) | (uint32_t(b[3]) << 16) | (uint32_t(b[4]) << 8) | b[5]), "changes exactly the addressed byte and the size");
}
ENTRY(build8)
{
    const uint8_t g = vf_u4(), id = vf_u8(); const uint32_t f = vf_choose(4), n = vf_choose(14);
    auto p = f == 0 ? make_sysex8_complete_packet(id, g) : f == 1 ? make_sysex8_start_packet(id, g) : f == 2 ? make_sysex8_continue_packet(id, g) : make_sysex8_end_packet(id, g);
    uint8_t b[13] = {};
    CHECK(p.payload_size() == 0);
    for (uint32_t i = 0; i < n; ++i) { b[i] = vf_u8(); p.add_payload_byte(b[i]); CHECK(p.payload_size() == i + 1); }
    auto same = [&](const universal_packet& q, uint8_t stream, uint32_t size) {
        bool ok = raw(q, 0) == (0x50 | g) && raw(q, 1) == f * 16 + size + 1 && raw(q, 2) == stream;
        for (uint32_t i = 0; i < 13; ++i) ok &= raw(q, 3 + i) == b[i];
        return ok;
    };
    CHECKM(same(p, id, n), "exactly format, group, stream id, size and payload");
    CHECK(unsigned(p.format()) == f && p.group() == g && p.stream_id() == id && p.type() == packet_type::extended_data && p.size() == 4);
    for (uint32_t i = 0; i < n; ++i) CHECK(p.payload_byte(i) == b[i]);
    CHECK(is_extended_data_message(p) && is_sysex8_packet(p) && !is_sysex7_packet(p));
    auto v = as_sysex8_packet_view(p); CHECK(v.has_value()); if (!v) return;
    CHECK(v->group() == g && unsigned(v->format()) == f && v->stream_id() == id && v->payload_size() == n);
    for (uint32_t i = 0; i < n; ++i) CHECK(v->payload_byte(i) == b[i]);
    const uint32_t at = vf_choose(13), m = vf_choose(14); const uint8_t x = vf_u8(), id2 = vf_u8();
    p.set_payload_byte(at, x); p.set_payload_size(m); p.set_stream_id(id2);
    b[at] = x;
    CHECKM(same(p, id2, m), "changes exactly the addressed byte, size and stream id");
}
// a byte appended to any packet with room for it
ENTRY(append)
{
    if (vf_choose(2))
    {
        sysex7_packet p; for (auto& w : p.data) w = vf_u32(); vf_assume(p.data[0] >> 28 == 3); const unsigned n = p.data[0] >> 16 & 15; vf_assume(n < 6); const sysex7_packet q = p; const uint8_t x = vf_u8(); p.add_payload_byte(x);
        CHECK(p.payload_size() == n + 1); for (unsigned i = 0; i < 16; ++i) CHECK(raw(p, i) == (i == 1 ? raw(q, 1) + 1 : i == 2 + n ? x & 0x7F : raw(q, i)));
    }
    else
    {
        sysex8_packet p; for (auto& w : p.data) w = vf_u32(); vf_assume(p.data[0] >> 28 == 5); const unsigned s = p.data[0] >> 16 & 15, n = s ? s - 1 : 0; vf_assume(n < 13); const sysex8_packet q = p; const uint8_t x = vf_u8(); CHECK(p.payload_size() == n); p.add_payload_byte(x);
        CHECK(p.payload_size() == n + 1); for (unsigned i = 0; i < 16; ++i) CHECK(raw(p, i) == (i == 1 ? (raw(q, 1) & 0xF0) + n + 2 : i == 3 + n ? x : raw(q, i)));
    }
}
ENTRY(defaults)
{
    sysex7_packet a; CHECK(words(a, 0x30000000));
    sysex8_packet b; CHECK(words(b, 0x50010000)); CHECK(b.payload_size() == 0);
    const uint8_t s = vf_u8();
    CHECK(words(data_message{ s }, 0x30000000u | (uint32_t(s) << 16))); CHECK(words(extended_data_message{ s }, 0x50000000u | (uint32_t(s) << 16)));
}
ENTRY(views)
{
    const auto p = any_packet();
    const unsigned t = p.data[0] >> 28, st = raw(p, 1);
    const bool s7 = t == 3 && (st >> 4) <= 3 && (st & 15) <= 6, s8 = t == 5 && (st >> 4) <= 3 && (st & 15) >= 1 && (st & 15) <= 14;
    CHECK(is_data_message(p) == (t == 3)); CHECK(is_extended_data_message(p) == (t == 5));
    CHECK(is_sysex7_packet(p) == s7); CHECK(is_sysex8_packet(p) == s8);
    auto a = as_sysex7_packet_view(p); auto b = as_sysex8_packet_view(p);
    CHECK(a.has_value() == s7); CHECK(b.has_value() == s8);
    if (a && s7)
    {
        CHECK(a->group() == (raw(p, 0) & 15) && unsigned(a->format()) == st >> 4 && a->status() == (st & 0xF0) && a->payload_size() == (st & 15));
        const auto n = vf_concretize(a->payload_size()); CHECK(n <= 6);
        for (unsigned i = 0; i < n && i < 6; ++i) CHECK(a->payload_byte(i) == raw(p, 2 + i));
    }
    if (b && s8)
    {
        CHECK(b->group() == (raw(p, 0) & 15) && unsigned(b->format()) == st >> 4 && b->stream_id() == raw(p, 2) && b->payload_size() == (st & 15u) - 1);
        const auto n = vf_concretize(b->payload_size()); CHECK(n <= 13);
        for (unsigned i = 0; i < n && i < 13; ++i) CHECK(b->payload_byte(i) == raw(p, 3 + i));
    }
}
