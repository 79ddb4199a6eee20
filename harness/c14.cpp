// C14: byte stream parser, system exclusive
#include "parser_ref.h"
#include <midi/sysex.h>
#include <midi/midi1_byte_stream.h>
using namespace midi;
static const uint32_t LONG = 66000;
// ---- exclusives as packets: reassemble and compare with the bytes that were fed
template<uint32_t CAP> struct Rx
{
    uint8_t group = 0; uint8_t buf[CAP]; uint32_t len = 0, got = 0; bool open = false, done = false, fresh = true; uint32_t other = 0, other_word = 0, packets = 0;
    void packet(const universal_packet& p)
    {
        if ((p.data[0] >> 28) != 3) { ++other; other_word = p.data[0]; return; }
        ++packets;
        CHECK((raw(p, 0) & 15) == group);
        const unsigned f = raw(p, 1) >> 4, n = raw(p, 1) & 15;
        CHECK(f <= 3 && n <= 6); if (f > 3 || n > 6) return;
        const bool first = f == 0 || f == 1;
        CHECKM(first == !open, "start/complete exactly at the begin of an exclusive");
        CHECKM(!done, "nothing after the end");
        if (first) CHECK(got == 0);
        for (unsigned i = 0; i < 6; ++i)
            if (i < n) { CHECKM(got + i < len, "no byte that was not fed"); if (got + i < len) CHECKM(raw(p, 2 + i) == buf[got + i], "payload byte"); }
            else CHECKM(raw(p, 2 + i) == 0, "padding");
        got += n; open = f == 1 || f == 2; if (f == 0 || f == 3) done = true;
        CHECK(p.data[2] == 0 && p.data[3] == 0);
        vf_observe(p.data[0]); vf_observe(p.data[1]);
    }
    void begin() { len = got = 0; open = done = false; }
};
template<uint32_t CAP> static void step(midi1_byte_stream_parser& p, ref_parser& r, Rx<CAP>& x, uint8_t b)
{
    r.step(b);
    if (r.sx_begin) x.begin();
    if (r.sx_data) { if (x.len < CAP) x.buf[x.len] = b; ++x.len; }
    x.other = 0;
    p.feed(b);
    CHECKM(x.other == (r.emit ? 1u : 0u), "messages around the exclusive"); if (x.other && r.emit) CHECK(x.other_word == r.word);
    if (r.sx_end) { CHECKM(x.done == (x.len > 0), "exclusive terminated"); CHECKM(x.got == x.len, "all bytes delivered"); CHECK(!x.open); x.begin(); }
    else { CHECKM(!x.done, "no end before F7"); if (r.sx_abort && !r.sx_begin) x.begin(); }
}
ENTRY(packets_any_history)
{
    Rx<64> x; ref_parser r; r.group = x.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { x.packet(q); });
    for (uint32_t i = 0, n = vf_param("N", 5); i < n; ++i) { step(p, r, x, vf_u8()); vf_merge(); }
}
// one exclusive of any length with a real time byte or nothing in every gap, ended by any status byte, then an exclusive of up to M bytes
ENTRY(packets_lengths)
{
    Rx<64> x; ref_parser r; r.group = x.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { x.packet(q); });
    const uint32_t n = vf_part(vf_param("L", 26)), gap = vf_choose(n + 1), rt = vf_choose(2);
    step(p, r, x, 0xF0);
    for (uint32_t i = 0; i < n; ++i) { if (rt && gap == i) { const uint8_t t = vf_u8(); vf_assume(t >= 0xF8); step(p, r, x, t); vf_merge(); } step(p, r, x, vf_u7()); }
    const uint8_t e = vf_u8(); vf_assume(e >= 0x80); step(p, r, x, e); vf_merge();
    step(p, r, x, 0xF0);
    const uint32_t m = vf_choose(vf_param("M", 8));
    for (uint32_t i = 0; i < m; ++i) step(p, r, x, vf_u7());
    step(p, r, x, 0xF7);
    const uint8_t t = vf_u8(); step(p, r, x, t);
}
ENTRY(packets_long)
{
    Rx<2000> x; ref_parser r; r.group = x.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { x.packet(q); });
    step(p, r, x, 0xF0);
    for (uint32_t i = 0, n = vf_param("L", 1100) + vf_choose(3); i < n; ++i) step(p, r, x, vf_u7());
    step(p, r, x, 0xF7);
}
// lengths around powers of two, followed by a short exclusive
ENTRY(packets_huge)
{
    static Rx<LONG> x; ref_parser r; r.group = x.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { x.packet(q); });
    const uint32_t n = vf_long_length(vf_part(vf_long_lengths));
    step(p, r, x, 0xF0); for (uint32_t i = 0; i < n; ++i) step(p, r, x, vf_long_byte(i, n)); step(p, r, x, 0xF7);
    step(p, r, x, 0xF0); for (uint32_t i = 0; i < 7; ++i) step(p, r, x, vf_u7()); step(p, r, x, 0xF7);
}
// ---- exclusives as messages
template<uint32_t CAP> struct Sx
{
    uint8_t buf[CAP]; uint32_t len = 0, calls = 0; bool good = true;
    uint32_t manufacturer() const { return buf[0] ? uint32_t(buf[0]) << 16 : (uint32_t(buf[1]) << 8) | buf[2]; }
    uint32_t head() const { return len == 0 ? 0 : buf[0] ? 1 : 3; }
    bool complete() const { return len > 0 && (buf[0] != 0 || len >= 3); }
    void message(const sysex7& s)
    {
        ++calls;
        CHECKM(complete(), "complete manufacturer id"); if (!complete()) return;
        CHECK(s.manufacturerID == manufacturer());
        const uint32_t h = head();
        CHECKM(s.data.size() == len - h, "data size"); if (s.data.size() != len - h) return;
        for (uint32_t i = 0; i < len - h; ++i) CHECKM(s.data[i] == buf[h + i], "data byte");
        vf_observe(s.manufacturerID); vf_observe(s.data.size());
    }
};
template<uint32_t CAP> struct Rig
{
    Sx<CAP> x; ref_parser r; uint32_t other = 0, word = 0; bool on = true, on_at_begin = true;
    midi1_byte_stream_parser p{ uint8_t(0), [this](universal_packet q) { ++other; word = q.data[0]; CHECK((q.data[0] >> 28) != 3); }, [this](const sysex7& s) { x.message(s); } };
    void step(uint8_t b)
    {
        r.step(b);
        if (r.sx_begin) { x.len = 0; on_at_begin = on; }
        if (r.sx_data) { if (x.len < CAP) x.buf[x.len] = b; ++x.len; }
        other = 0; x.calls = 0;
        p.feed(b);
        CHECKM(other == (r.emit && on ? 1u : 0u), "messages around the exclusive"); if (other && r.emit) CHECK(word == r.word);
        CHECKM(x.calls == (r.sx_end && on && on_at_begin && x.complete() ? 1u : 0u), "one message per exclusive");
    }
};
ENTRY(messages_any_history)
{
    Rig<64> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    for (uint32_t i = 0, n = vf_param("N", 5); i < n; ++i) { g.step(vf_u8()); vf_merge(); }
}
ENTRY(messages_lengths)
{
    Rig<64> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    const uint32_t n = vf_part(vf_param("L", 12)), gap = vf_choose(n + 1), rt = vf_choose(2);
    g.step(0xF0);
    for (uint32_t i = 0; i < n; ++i) { if (rt && gap == i) { const uint8_t t = vf_u8(); vf_assume(t >= 0xF8); g.step(t); vf_merge(); } g.step(vf_u7()); }
    const uint8_t e = vf_u8(); vf_assume(e >= 0x80); g.step(e); vf_merge();
    g.step(0xF0);
    const uint32_t m = vf_choose(vf_param("M", 6));
    for (uint32_t i = 0; i < m; ++i) g.step(vf_u7());
    g.step(0xF7);
    g.step(vf_u8());
}
// callbacks switched off and on around exclusives: what was not enabled at begin and end is skipped, never mixed into the next one
ENTRY(messages_disabled)
{
    Rig<64> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    auto sw = [&] { g.on = vf_choose(2); g.p.enable_callbacks(g.on); };
    sw(); g.step(0xF0);
    const uint32_t n = vf_part(6), at = vf_choose(n + 1);
    for (uint32_t i = 0; i < n; ++i) { if (i == at) sw(); g.step(vf_u7()); }
    sw(); const uint8_t e = vf_u8(); vf_assume(e >= 0xF0); g.step(e);
    sw(); g.step(0xF0); const uint32_t m = vf_choose(5);
    for (uint32_t i = 0; i < m; ++i) { if (i == m / 2) sw(); g.step(vf_u7()); }
    sw(); g.step(0xF7);
    g.on = true; g.p.enable_callbacks(true); g.step(0xF0); g.step(vf_u7()); g.step(vf_u7()); g.step(vf_u7()); g.step(0xF7);
}
ENTRY(messages_long)
{
    Rig<2000> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    for (int k = 0; k < 2; ++k)
    {
        g.step(0xF0);
        for (uint32_t i = 0, n = k ? 3 : vf_param("L", 1024) + vf_choose(6); i < n; ++i) g.step(vf_u7());
        g.step(0xF7);
    }
}

ENTRY(messages_huge)
{
    Rig<LONG> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    const uint32_t n = vf_long_length(vf_part(vf_long_lengths));
    g.step(0xF0); for (uint32_t i = 0; i < n; ++i) g.step(vf_long_byte(i, n)); g.step(vf_bool() ? 0xF7 : 0xF0); vf_merge();
    g.step(0xF0); for (uint32_t i = 0; i < 5; ++i) g.step(vf_u7()); g.step(0xF7);
}
// many exclusives one after the other, some aborted, with channel messages in between
template<class T> static void many(T&& step)
{
    const uint32_t kind = vf_part(3);
    for (uint32_t i = 0; i < 300; ++i)
    {
        const uint32_t n = kind == 0 ? i % 23 : kind == 1 ? (i * 5) % 17 : i < 150 ? 1 : 9;
        step(0xF0);
        for (uint32_t k = 0; k < n; ++k) step(k < 3 ? (kind == 2 && i % 8 == 0 ? 0 : i % 4 ? uint8_t(1 + i % 100) : uint8_t(0)) : k + 2 > n && i % 4 == 0 ? vf_u7() : uint8_t((i + k) & 0x7F));
        if (i % 11 == 5) { step(0x95); step(vf_u7()); step(0x22); } else step(0xF7);
        if (i % 5 == 2) step(0xFA);
    }
}
ENTRY(packets_many)
{
    Rx<64> x; ref_parser r; r.group = x.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { x.packet(q); });
    many([&](uint8_t b) { step(p, r, x, b); });
}
ENTRY(messages_many)
{
    Rig<64> g; g.r.group = vf_u4(); g.p.set_group(g.r.group);
    many([&](uint8_t b) { g.step(b); });
}
