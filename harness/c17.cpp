// C17: exclusive messages to packets
#include "pk.h"
#include <midi/sysex.h>
using namespace midi;
static uint32_t any_manufacturer()
{
    const uint32_t m = vf_u32();
    vf_assume((m & 0xFF808080) == 0 && m != 0 && ((m & 0xFF0000) == 0 || (m & 0xFFFF) == 0));
    return m;
}
template<uint32_t CAP> struct Rx
{
    uint8_t expect[CAP]; uint32_t len = 0, got = 0, packets = 0; bool open = false, done = false; unsigned type, cap, head, group, stream = 0;
    void add(uint8_t b) { expect[len++] = b; }
    void packet(const universal_packet& p)
    {
        CHECK(raw(p, 0) == type * 16 + group);
        const unsigned f = raw(p, 1) >> 4, s = raw(p, 1) & 15;
        CHECK(f <= 3); if (head == 3) { CHECK(s >= 1); CHECK(raw(p, 2) == stream); }
        const unsigned n = head == 3 ? s - 1 : s;
        CHECK(n <= cap); if (n > cap || f > 3) return;
        CHECKM((f == 0 || f == 1) == !open, "complete or start first, and only first"); CHECKM(!done, "nothing after the last packet");
        CHECKM(packets == 0 || n > 0, "no empty packet");
        for (unsigned i = 0; i < cap; ++i)
            if (i < n) { CHECKM(got + i < len, "no extra byte"); if (got + i < len) CHECKM(raw(p, head + i) == expect[got + i], "payload byte"); }
            else CHECKM(raw(p, head + i) == 0, "padding");
        got += n; ++packets; open = f == 1 || f == 2; done = f == 0 || f == 3;
        if (!done) CHECKM(n == cap, "only the last packet partly filled");
        if (f == 0) CHECKM(packets == 1 && got == len, "complete packet carries everything");
    }
    void finish() { CHECKM(done && !open, "terminated"); CHECKM(got == len, "everything sent"); CHECKM(packets == (len + cap - 1) / cap, "number of packets"); }
};
ENTRY(seven_bit)
{
    const uint32_t n = vf_part(vf_param("L", 40)); const uint32_t m = any_manufacturer();
    Rx<256> x; x.type = 3; x.cap = 6; x.head = 2; x.group = vf_u4();
    if (m & 0xFF0000) x.add(m >> 16); else { x.add(0); x.add(m >> 8); x.add(m & 0xFF); }
    sysex7 s(m); s.data.reserve(n);
    for (uint32_t i = 0; i < n; ++i) { const uint8_t b = vf_u7(); x.add(b); s.data.push_back(b); }
    CHECK(s.total_data_size() == x.len);
    auto y = x;
    send_sysex7(s, x.group, [&](const universal_packet& p) { x.packet(p); }); x.finish();
    for (const auto& p : as_sysex7_packets(s, y.group)) y.packet(p); y.finish();
}
ENTRY(eight_bit)
{
    const uint32_t n = vf_part(vf_param("L", 60)); const uint32_t m = any_manufacturer();
    Rx<256> x; x.type = 5; x.cap = 13; x.head = 3; x.group = vf_u4(); x.stream = vf_u8();
    if (m & 0xFF0000) { x.add(0); x.add(m >> 16); } else { x.add(0x80 | (m >> 8)); x.add(m & 0xFF); }
    sysex8 s(m); s.data.reserve(n);
    for (uint32_t i = 0; i < n; ++i) { const uint8_t b = vf_u8(); x.add(b); s.data.push_back(b); }
    auto y = x;
    send_sysex8(s, x.stream, x.group, [&](const universal_packet& p) { x.packet(p); }); x.finish();
    for (const auto& p : as_sysex8_packets(s, y.stream, y.group)) y.packet(p); y.finish();
}

// long messages: lengths around powers of two
static Rx<66000> big, big2;
ENTRY(seven_bit_huge)
{
    const uint32_t n = vf_long_length(vf_part(vf_long_lengths)), one = vf_choose(2), m = one ? 0x7D0000 : 0x002109;
    auto& x = big; x.type = 3; x.cap = 6; x.head = 2; x.group = n * 7 & 15;
    if (one) x.add(m >> 16); else { x.add(0); x.add(m >> 8); x.add(m & 0xFF); }
    sysex7 s(m); s.data.reserve(n);
    for (uint32_t i = 0; i < n; ++i) { const uint8_t b = vf_long_byte(i, n); x.add(b); s.data.push_back(b); }
    CHECK(s.total_data_size() == x.len);
    big2 = big;
    send_sysex7(s, x.group, [&](const universal_packet& p) { x.packet(p); }); x.finish();
    for (const auto& p : as_sysex7_packets(s, big2.group)) big2.packet(p); big2.finish();
}
ENTRY(eight_bit_huge)
{
    const uint32_t n = vf_long_length(vf_part(vf_long_lengths)), one = vf_choose(2), m = one ? 0x7D0000 : 0x002109;
    auto& x = big; x.type = 5; x.cap = 13; x.head = 3; x.group = n * 7 & 15; x.stream = n * 11 & 0xFF;
    if (one) { x.add(0); x.add(m >> 16); } else { x.add(0x80 | (m >> 8)); x.add(m & 0xFF); }
    sysex8 s(m); s.data.reserve(n);
    for (uint32_t i = 0; i < n; ++i) { const uint8_t b = vf_long_byte(i, n); x.add(b); s.data.push_back(b); }
    big2 = big;
    send_sysex8(s, x.stream, x.group, [&](const universal_packet& p) { x.packet(p); }); x.finish();
    for (const auto& p : as_sysex8_packets(s, big2.stream, big2.group)) big2.packet(p); big2.finish();
}
