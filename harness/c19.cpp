// C19: collector size limit
#include "collector_ref.h"
using namespace midi;
template<bool E> static void limited(uint32_t n)
{
    static const uint8_t sizes7[] = { 0, 1, 3, 6 }, sizes8[] = { 0, 3, 7, 13 };
    Bench<E> b; const uint8_t group = vf_u4(), id = vf_u8();
    const uint32_t limit = 1 + vf_part(vf_param("LIM", 16));
    // the limit may be set on a new collector, or after a message that was larger or left unfinished under no limit, or lowered from another limit
    switch (vf_choose(4))
    {
    case 0: break;
    case 1: b.feed(sx_packet(E, group, 1, E ? 13 : 6, id)); b.feed(sx_packet(E, group, 2, E ? 13 : 6, id)); b.feed(sx_packet(E, group, 3, E ? 13 : 6, id)); break;
    case 2: b.c.set_max_sysex_data_size(40); b.m.limit = 40; b.feed(sx_packet(E, group, 0, 4, id)); break;
    case 3: b.feed(sx_packet(E, group, 1, 1, id)); b.c.reset(); b.m.reset(); break;
    }
    b.c.set_max_sysex_data_size(limit); b.m.limit = limit;
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t a = vf_choose(16);
        b.feed(sx_packet(E, group, a / 4, (E ? sizes8 : sizes7)[a % 4], id));
    }
    // whatever happened, the next message within the limit is delivered intact
    const uint32_t k = limit < 3 ? limit : 3;
    b.feed(sx_packet(E, group, 0, k + (E ? 2 : 0), id)); CHECKM(b.m.deliver, "next message delivered");
}
ENTRY(limited7) { limited<false>(vf_param("N", 2)); }
ENTRY(limited8) { limited<true>(vf_param("N", 2)); }
// a message of exactly the limit is delivered, one byte more is dropped, the next one is intact
template<bool E> static void exact()
{
    Bench<E> b; const uint8_t group = vf_u4(), id = vf_u8();
    const uint32_t limit = 1 + vf_part(vf_param("LIM", 40)), extra = vf_choose(3), size = limit + extra, cap = E ? 13 : 6;
    b.c.set_max_sysex_data_size(limit); b.m.limit = limit;
    for (int r = 0; r < 2; ++r)
    {
        uint32_t left = size + (E ? 2 : 1); bool first = true;
        const uint32_t chunk = r ? cap : 1 + vf_choose(cap);
        while (left)
        {
            const uint32_t k = left < chunk ? left : chunk; left -= k;
            auto p = sx_packet(E, group, first ? (left ? 1 : 0) : left ? 2 : 3, k, id);
            if (first) vf_assume(E ? raw(p, 3) >= 0x80 : raw(p, 2) != 0);
            b.feed(p); first = false;
        }
        CHECKM(b.m.deliver == (extra == 0), "dropped exactly when larger than the limit");
    }
    b.feed(sx_packet(E, group, 0, E ? 3 : 2, id)); CHECKM(b.m.deliver, "next message delivered");
    // no limit any more
    b.c.set_max_sysex_data_size(0); b.m.limit = 0;
    auto q = sx_packet(E, group, 1, cap, id); vf_assume(raw(q, E ? 3 : 2) >= (E ? 0x80 : 1)); b.feed(q); for (int i = 0; i < 12; ++i) b.feed(sx_packet(E, group, 2, cap, id)); b.feed(sx_packet(E, group, 3, 2, id)); CHECKM(b.m.deliver, "unlimited");
}
ENTRY(exact7) { exact<false>(); }
ENTRY(exact8) { exact<true>(); }
ENTRY(large_limit7)
{
    Bench<false> b; const uint8_t group = vf_u4(); const uint32_t limit = vf_param("LIM", 300) + vf_choose(7);
    b.c.set_max_sysex_data_size(limit); b.m.limit = limit;
    auto p = sx_packet(false, group, 1, 6); vf_assume(raw(p, 2) != 0); b.feed(p);
    uint32_t n = 5; while (n + 6 <= limit) { b.feed(sx_packet(false, group, 2, 6)); n += 6; }
    b.feed(sx_packet(false, group, 3, vf_choose(7)));
    b.feed(sx_packet(false, group, 0, 3)); CHECKM(b.m.deliver, "next message delivered");
}
ENTRY(large_limit8)
{
    Bench<true> b; const uint8_t group = vf_u4(), id = vf_u8(); const uint32_t limit = vf_param("LIM", 300) + vf_choose(13);
    b.c.set_max_sysex_data_size(limit); b.m.limit = limit;
    b.feed(sx_packet(true, group, 1, 13, id));
    uint32_t n = 11; while (n + 13 <= limit) { b.feed(sx_packet(true, group, 2, 13, id)); n += 13; }
    b.feed(sx_packet(true, group, 3, vf_choose(14), id));
    b.feed(sx_packet(true, group, 0, 3, id)); CHECKM(b.m.deliver, "next message delivered");
}

// limits around powers of two: a message of the limit is delivered, one byte more (or many more) is dropped, the next one is intact
template<bool E, class S, class C> static void huge(C& c, const S*& want, uint32_t& calls)
{
    const uint32_t limit = vf_long_length(vf_part(vf_long_lengths)); const uint8_t group = 11, stream = E ? 9 : 0;
    c.set_max_sysex_data_size(limit);
    for (int r = 0; r < 4; ++r)
    {
        if (r == 3) c.set_max_sysex_data_size(0);
        const uint32_t k = r == 0 ? limit : r == 1 ? limit + 1 : r == 2 ? 5 : limit + 2; S s(r == 0 ? 0x7D0000 : 0x002109); s.data.reserve(k);
        for (uint32_t i = 0; i < k; ++i) s.data.push_back(r != 2 && limit > 2048 ? uint8_t(i * 5 & 0x7F) : vf_long_byte(i, k));
        want = &s; calls = 0;
        auto f = [&](const universal_packet& p) { CHECKM(calls == 0, "not before the last packet"); c.feed(p); };
        if constexpr (E) send_sysex8(s, stream, group, f); else send_sysex7(s, group, f);
        CHECKM(calls == (r == 1 ? 0u : 1u), "delivered once, or dropped when longer than the limit");
    }
}
template<class S> static void same(const S& s, const S* want) { CHECK(s.manufacturerID == want->manufacturerID); CHECK(s.data.size() == want->data.size()); if (s.data.size() == want->data.size()) for (size_t i = 0; i < s.data.size(); ++i) CHECK(s.data[i] == want->data[i]); }
ENTRY(huge_limit7)
{
    uint32_t calls = 0; const sysex7* want = nullptr;
    sysex7_collector c{ [&](const sysex7& s) { ++calls; same(s, want); } };
    huge<false>(c, want, calls);
}
ENTRY(huge_limit8)
{
    uint32_t calls = 0; const sysex8* want = nullptr;
    sysex8_collector c{ [&](const sysex8& s, uint8_t id) { CHECK(id == 9); ++calls; same(s, want); } };
    huge<true>(c, want, calls);
}
// many messages under a limit, within it and beyond it
template<bool E> static void many()
{
    Bench<E> b; const uint8_t group = vf_u4(), id = vf_u8(); const uint32_t cap = E ? 13 : 6, limit = 10 + vf_part(3) * 20;
    b.c.set_max_sysex_data_size(limit); b.m.limit = limit;
    for (uint32_t i = 0; i < 280; ++i)
    {
        const uint32_t size = i % 3 == 0 ? limit + i % 7 : (i * 5) % (limit + 1); uint32_t left = size + (E ? 2 : 1); bool first = true;
        while (left)
        {
            const uint32_t k = left < cap ? left : cap; left -= k;
            auto p = sx_packet(E, group, first ? (left ? 1 : 0) : left ? 2 : 3, k, id);
            if (first) { if (E) p.data[0] = (p.data[0] & 0xFFFFFF00u) | 0x85u; else p.data[0] = (p.data[0] & 0xFFFF00FFu) | 0x1100u; }
            b.feed(p); first = false;
        }
        CHECKM(b.m.deliver == (size <= limit), "dropped exactly when larger than the limit");
    }
}
ENTRY(many7) { many<false>(); }
ENTRY(many8) { many<true>(); }

// the limit is changed while a message is collected: it holds for the bytes that follow
template<bool E> static void changed()
{
    static const uint32_t limits[] = { 0, 1, 3, 5, 6, 11, 12, 17, 18, 24, 25, 40 };
    Bench<E> b; const uint8_t group = vf_u4(), id = vf_u8(); const uint32_t cap = E ? 13 : 6, part = vf_part(12), more = vf_choose(2), last = 1 + vf_choose(cap);
    const uint32_t before = vf_choose(3) * 20, after = limits[part], have = cap - (E ? 2 : 1), total = have + more * cap + last; vf_assume(before == 0 || before >= have);
    b.c.set_max_sysex_data_size(before); b.m.limit = before;
    auto p = sx_packet(E, group, 1, cap, id); vf_assume(E ? raw(p, 3) >= 0x80 : raw(p, 2) != 0); b.feed(p);
    b.c.set_max_sysex_data_size(after); b.m.limit = after;
    if (more) b.feed(sx_packet(E, group, 2, cap, id));
    b.feed(sx_packet(E, group, 3, last, id)); CHECKM(b.m.deliver == (after == 0 || total <= after), "dropped exactly when larger than the limit");
    b.feed(sx_packet(E, group, 0, E ? 3 : 2, id)); CHECKM(b.m.deliver, "next message delivered");
}
ENTRY(changed7) { changed<false>(); }
ENTRY(changed8) { changed<true>(); }
