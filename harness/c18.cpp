// C18: exclusive collectors
#include "collector_ref.h"
using namespace midi;
// all packet histories of one group: exclusive packets of any format, size and payload
template<bool E> static void history(uint32_t n)
{
    Bench<E> b; const uint8_t group = vf_u4(); uint32_t q = vf_part(8), base = q;
    for (uint32_t i = 0; i < n; ++i)
    {
        uint32_t f = vf_choose(4), k = vf_choose(E ? 14 : 7);
        if (i == 0) vf_assume((f * (E ? 14 : 7) + k) % 8 == base);
        b.feed(sx_packet(E, group, f, k, E ? vf_u8() : 0));
    }
}
ENTRY(history7) { history<false>(vf_param("N", 3)); }
ENTRY(history8) { history<true>(vf_param("N", 2)); }
// longer histories with fewer payload sizes, any other packet or a reset in between
template<bool E> static void mixed(uint32_t n)
{
    static const uint8_t sizes7[] = { 0, 1, 2, 6 }, sizes8[] = { 0, 1, 3, 13 };
    Bench<E> b; const uint8_t group = vf_u4();
    const uint32_t first = vf_part(18);
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t a = i == 0 ? first : vf_choose(18);
        if (a < 16) b.feed(sx_packet(E, group, a / 4, (E ? sizes8 : sizes7)[a % 4], E ? vf_choose(2) : 0));
        else if (a == 16)
        {
            auto p = any_packet(); const unsigned t = p.data[0] >> 28, f = raw(p, 1) >> 4, s = raw(p, 1) & 15;
            if (E) vf_assume(!(t == 5 && f <= 3 && s >= 1 && s <= 14)); else vf_assume(!(t == 3 && f <= 3 && s <= 6));
            b.feed(p);
        }
        else { b.c.reset(); b.m.reset(); }
    }
}
ENTRY(mixed7) { mixed<false>(vf_param("N", 4)); }
ENTRY(mixed8) { mixed<true>(vf_param("N", 3)); }
// messages packed by the library come back equal, after an arbitrary exclusive packet, twice, with any foreign packet in between
static uint32_t any_manufacturer()
{
    const uint32_t m = vf_u32();
    vf_assume((m & 0xFF808080) == 0 && m != 0 && ((m & 0xFF0000) == 0 || (m & 0xFFFF) == 0));
    return m;
}
ENTRY(sent7)
{
    const uint32_t n = vf_part(vf_param("L", 30)); const uint8_t group = vf_u4();
    uint32_t calls = 0; const sysex7* want = nullptr;
    sysex7_collector c{ [&](const sysex7& s) { ++calls; if (want) { CHECK(s.manufacturerID == want->manufacturerID); CHECK(s == *want); } } };
    { const uint32_t f = vf_choose(4), k = vf_choose(7); c.feed(sx_packet(false, group, f, k)); }
    for (int r = 0; r < 2; ++r)
    {
        sysex7 s(any_manufacturer()); for (uint32_t i = 0, k = r ? vf_choose(3) : n; i < k; ++i) s.data.push_back(vf_u7());
        want = &s; calls = 0;
        for (const auto& p : as_sysex7_packets(s, group))
        {
            auto o = any_packet(); vf_assume((o.data[0] >> 28) != 3); c.feed(o);
            CHECKM(calls == 0, "not before the last packet"); c.feed(p);
        }
        CHECKM(calls == 1, "delivered once");
    }
}
ENTRY(sent8)
{
    const uint32_t n = vf_part(vf_param("L", 45)); const uint8_t group = vf_u4(), stream = vf_u8();
    uint32_t calls = 0; const sysex8* want = nullptr;
    sysex8_collector c{ [&](const sysex8& s, uint8_t id) { ++calls; if (want) { CHECK(id == stream); CHECK(s.manufacturerID == want->manufacturerID); CHECK(s == *want); } } };
    { static const uint8_t ks[] = { 0, 1, 2, 13 }; const uint32_t f = vf_choose(4), k = ks[vf_choose(4)]; const uint8_t id = vf_u8(); c.feed(sx_packet(true, group, f, k, id)); }
    for (int r = 0; r < 2; ++r)
    {
        sysex8 s(any_manufacturer()); for (uint32_t i = 0, k = r ? vf_choose(3) : n; i < k; ++i) s.data.push_back(vf_u8());
        want = &s; calls = 0; bool first = true;
        for (const auto& p : as_sysex8_packets(s, stream, group))
        {
            auto o = any_packet(); vf_assume((o.data[0] >> 28) != 5); c.feed(o);
            if (!first) { const uint8_t other = vf_u8(); vf_assume(other != stream); c.feed(sx_packet(true, group, 2 + vf_choose(2), 5, other)); CHECK(c.stream_id() == stream); }
            first = false;
            CHECKM(calls == 0, "not before the last packet"); c.feed(p);
        }
        CHECKM(calls == 1, "delivered once");
    }
}
// long messages (buffer growth)
ENTRY(long7)
{
    Bench<false> b; const uint8_t group = vf_u4(); const uint32_t n = vf_param("P", 60) + vf_choose(2);
    b.feed(sx_packet(false, group, 1, 6)); for (uint32_t i = 0; i < n; ++i) b.feed(sx_packet(false, group, 2, 6)); b.feed(sx_packet(false, group, 3, vf_choose(7)));
}
ENTRY(long8)
{
    Bench<true> b; const uint8_t group = vf_u4(), id = vf_u8(); const uint32_t n = vf_param("P", 30) + vf_choose(2);
    b.feed(sx_packet(true, group, 1, 13, id)); for (uint32_t i = 0; i < n; ++i) b.feed(sx_packet(true, group, 2, 13, id)); b.feed(sx_packet(true, group, 3, vf_choose(14), id));
}
// callbacks may be absent or replaced at any time
ENTRY(callbacks)
{
    const uint8_t group = vf_u4(); uint32_t a = 0, b = 0;
    sysex7_collector c{ nullptr }; c.feed(sx_packet(false, group, vf_choose(4), 3));
    c.set_callback([&](const sysex7&) { ++a; }); c.feed(sx_packet(false, group, 0, 3)); CHECK(a == 1);
    c.set_callback([&](const sysex7&) { ++b; }); c.feed(sx_packet(false, group, 1, 3)); c.feed(sx_packet(false, group, 3, 3)); CHECK(a == 1 && b == 1);
    sysex8_collector d{ nullptr }; const uint32_t f = vf_choose(4); d.feed(sx_packet(true, group, f, 3, vf_u8()));
    d.set_callback([&](const sysex8&, uint8_t) { ++a; }); d.feed(sx_packet(true, group, 0, 3, vf_u8())); CHECK(a == 2);
}

// long messages of lengths around powers of two, after an unfinished message; then a short one
template<bool E, class S, class C> static void huge(C& c, const S*& want, uint32_t& calls)
{
    const uint32_t n = vf_long_length(vf_part(vf_long_lengths)); const uint8_t group = 11, stream = E ? 9 : 0;
    if (vf_choose(2)) c.feed(sx_packet(E, group, 1, 4, stream));
    for (int r = 0; r < 2; ++r)
    {
        const uint32_t k = r ? 5 : n; S s(r ? 0x002109 : 0x7D0000); s.data.reserve(k);
        for (uint32_t i = 0; i < k; ++i) s.data.push_back(vf_long_byte(i, k));
        want = &s; calls = 0;
        auto f = [&](const universal_packet& p) { CHECKM(calls == 0, "not before the last packet"); c.feed(p); };
        if constexpr (E) send_sysex8(s, stream, group, f); else send_sysex7(s, group, f);
        CHECKM(calls == 1, "delivered once");
    }
}
ENTRY(huge7)
{
    uint32_t calls = 0; const sysex7* want = nullptr;
    sysex7_collector c{ [&](const sysex7& s) { ++calls; if (want) { CHECK(s.manufacturerID == want->manufacturerID); CHECK(s.data.size() == want->data.size()); if (s.data.size() == want->data.size()) for (size_t i = 0; i < s.data.size(); ++i) CHECK(s.data[i] == want->data[i]); } } };
    huge<false>(c, want, calls);
}
ENTRY(huge8)
{
    uint32_t calls = 0; const sysex8* want = nullptr;
    sysex8_collector c{ [&](const sysex8& s, uint8_t id) { CHECK(id == 9); ++calls; if (want) { CHECK(s.manufacturerID == want->manufacturerID); CHECK(s.data.size() == want->data.size()); if (s.data.size() == want->data.size()) for (size_t i = 0; i < s.data.size(); ++i) CHECK(s.data[i] == want->data[i]); } } };
    huge<true>(c, want, calls);
}
// many messages one after the other, some unfinished
template<bool E> static void many()
{
    Bench<E> b; const uint8_t group = vf_u4(); const uint32_t kind = vf_part(3), cap = E ? 13 : 6;
    for (uint32_t i = 0; i < 300; ++i)
    {
        const uint8_t id = E ? uint8_t(i * 3) : 0; uint32_t packets = kind == 0 ? 1 + i % 5 : kind == 1 ? 1 + (i * 3) % 4 : i < 150 ? 1 : 2;
        for (uint32_t k = 0; k < packets; ++k)
        {
            const bool last = k + 1 == packets; if (last && packets > 1 && i % 9 == 4) break;
            auto p = sx_packet(E, group, packets == 1 ? 0 : k == 0 ? 1 : last ? 3 : 2, last ? (i * 7) % (cap + 1) : cap, id);
            if (k == 0) { if (E) p.data[0] = (p.data[0] & 0xFFFFFF00u) | (i % 3 == 0 ? 0x85u : i % 3 == 1 ? 0u : 0x12u); else p.data[0] = (p.data[0] & 0xFFFF00FFu) | (i % 4 ? 0x1100u : 0u); }
            b.feed(p);
        }
    }
}
ENTRY(many7) { many<false>(); }
ENTRY(many8) { many<true>(); }
// longer histories still: packets of one size, an empty last packet, two streams, reset
template<bool E> static void deep(uint32_t n)
{
    Bench<E> b; const uint8_t group = vf_u4(); const uint32_t actions = E ? 9 : 6, first = vf_part(actions);
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t a = i == 0 ? first : vf_choose(actions);
        if (a == actions - 1) { b.c.reset(); b.m.reset(); }
        else if (E) b.feed(sx_packet(true, group, a & 3, 4, 5 + (a >> 2)));
        else b.feed(sx_packet(false, group, a < 4 ? a : 3, a < 4 ? 4 : 0));
    }
}
ENTRY(deep7) { deep<false>(vf_param("N", 6)); }
ENTRY(deep8) { deep<true>(vf_param("N", 5)); }
