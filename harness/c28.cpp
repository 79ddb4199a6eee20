// C28: jitter reduction
#include "pk.h"
#include <midi/jitter_reduction_timestamps.h>
using namespace midi;
using F = jr_clock_follower;
// the system clock is an input
static int64_t clock_ns;
namespace std::chrono::_V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(clock_ns)); } }
static F::time_point at(int64_t ns) { return F::time_point(F::duration(ns)); }
static int64_t ns(F::time_point t) { return t.time_since_epoch().count(); }
ENTRY(difference)
{
    const uint16_t a = vf_u16(), b = vf_u16();
    const auto d = jr_timestamp_t{ a } - jr_timestamp_t{ b };
    CHECKM(d.count() == uint16_t(a - b), "ticks from b forward to a, modulo 2^16");
    CHECK((jr_timestamp_t{ a } == jr_timestamp_t{ b }) == (a == b)); CHECK((jr_timestamp_t{ a } != jr_timestamp_t{ b }) == (a != b)); CHECK(jr_timestamp_t{}.value == 0);
}
ENTRY(messages)
{
    const uint16_t a = vf_u16(), b = vf_u16();
    jr_clock_message c(jr_timestamp_t{ a }); CHECK(words(c, 0x00100000u | a)); CHECK(c.timestamp().value == a); c.set_timestamp(jr_timestamp_t{ b }); CHECK(words(c, 0x00100000u | b)); CHECK(c.timestamp().value == b);
    jr_timestamp_message t(jr_timestamp_t{ a }); CHECK(words(t, 0x00200000u | a)); CHECK(t.timestamp().value == a); t.set_timestamp(jr_timestamp_t{ b }); CHECK(words(t, 0x00200000u | b)); CHECK(t.timestamp().value == b);
    CHECK(words(jr_clock_message{}, 0x00100000u) && words(jr_timestamp_message{}, 0x00200000u));
}
ENTRY(clock_now)
{
    // elapsed ticks since the first reading, modulo 2^16; readings up to 2^RANGE ns after the first (2^41 ns are more than 1000 wrap-arounds)
    clock_ns = int64_t(vf_u64()); vf_assume(clock_ns >= 0 && clock_ns < (int64_t(1) << 61)); const int64_t z = clock_ns;
    jr_clock::now();
    const uint64_t e = vf_u64(); vf_assume(e < (uint64_t(1) << vf_param("RANGE", 41))); clock_ns = z + int64_t(e);
    const uint64_t q = vf_u64(); vf_assume(q * 32000 <= e && e - q * 32000 < 32000 && q < (uint64_t(1) << 40)); // one tick is 32 us
    CHECKM(jr_clock::now().value == (q & 0xFFFF), "elapsed ticks");
}
// reference follower
struct Ref
{
    bool has = false; uint16_t ts = 0; int64_t clock = 0, msg = 0, jitter = 0, offset = 2000000;
    void reset() { *this = Ref{}; }
    void process(int64_t received, uint16_t t)
    {
        if (!has) { has = true; clock = received; ts = t; msg = received; return; }
        const int64_t expected = clock + int64_t(uint16_t(t - ts)) * 32000; ts = t;
        clock = received < expected ? received : expected; if (received > msg) msg = received;
        const int64_t j = received - expected; bool grow = false;
        if (j < 0) { jitter -= j; grow = true; } else if (j > jitter) { jitter = j; grow = true; }
        grown = grow;
    }
    bool grown = false;
    int64_t schedule(int64_t received, uint16_t t)
    {
        if (!has) msg = received; else { const int64_t m = clock + int64_t(uint16_t(t - ts)) * 32000; if (m > msg) msg = m; }
        return msg + offset;
    }
};
static const int64_t LIM = int64_t(1) << 43; // about 2.4 hours
static int64_t any_start() { const uint64_t d = vf_u64(); vf_assume(d < (uint64_t(1) << 61)); return clock_ns = int64_t(d); }
static int64_t any_time(int64_t zero) { const uint64_t d = vf_u64(); vf_assume(d > 0 && d < uint64_t(LIM)); return zero + int64_t(d); }
// security offset after the clock: at least 1.2 times the jitter, otherwise unchanged
static void offset_after(F& f, Ref& r)
{
    CHECKM(f.jitter().count() == r.jitter, "jitter");
    const int64_t o = f.security_offset().count();
    if (r.grown) { r.grown = false; CHECKM(o == r.offset || (o > r.offset && o * 10 <= r.jitter * 12 && o * 10 > r.jitter * 12 - 10), "security offset follows the jitter"); CHECKM(o * 10 > r.jitter * 12 - 10, "covers the jitter"); r.offset = o; }
    else CHECKM(o == r.offset, "security offset unchanged");
}
ENTRY(follower)
{
    const int64_t zero = any_start();
    const uint32_t pq = vf_part(16), first = pq / 4, second = pq % 4;
    F f; Ref r; CHECK(f.security_offset().count() == 2000000 && f.jitter().count() == 0);
    for (uint32_t i = 0, n = vf_param("N", 4); i < n; ++i)
    {
        switch (i == 0 ? first : i == 1 ? second : vf_choose(4))
        {
        case 0: { const int64_t t = any_time(zero); const uint16_t s = vf_u16(); f.process_clock(at(t), jr_timestamp_t{ s }); r.process(t, s); offset_after(f, r); break; }
        case 1: { const int64_t t = any_time(zero); const uint16_t s = vf_u16(); const int64_t got = ns(f.schedule_message(at(t), jr_timestamp_t{ s })); CHECKM(got == r.schedule(t, s), "scheduled time"); break; }
        case 2: { const uint64_t o = vf_u64(); vf_assume(o < uint64_t(LIM)); f.set_security_offset(F::duration(int64_t(o))); r.offset = int64_t(o); CHECK(f.security_offset().count() == int64_t(o)); break; }
        case 3: f.reset(); r.reset(); CHECK(f.security_offset().count() == 2000000 && f.jitter().count() == 0); break;
        }
    }
    const int64_t t = any_time(zero); const uint16_t s = vf_u16(); CHECKM(ns(f.schedule_message(at(t), jr_timestamp_t{ s })) == r.schedule(t, s), "scheduled time");
}
// a sender with a monotonic clock: messages stay in order, across any number of clocks and wrap-arounds
ENTRY(order)
{
    const int64_t zero = any_start();
    F f; int64_t rx = zero, last = zero; uint64_t tx = vf_u16(), clk = tx; uint32_t kinds = vf_part(1u << vf_param("N", 5)); // which are clocks
    for (uint32_t i = 0, n = vf_param("N", 5); i < n; ++i)
    {
        rx = any_time(rx); tx += vf_u16(); vf_assume(tx - clk < 65536); // a clock at least every 65535 ticks
        const jr_timestamp_t ts{ uint16_t(tx) };
        const bool is_clock = kinds & 1; kinds >>= 1;
        if (is_clock) { f.process_clock(at(rx), ts); clk = tx; }
        else { const int64_t t = ns(f.schedule_message(at(rx), ts)); CHECKM(t >= last, "messages stay in order"); last = t; }
    }
}
// an exact sender clock and constant transport delay: every message is scheduled at its send time plus a constant
ENTRY(steady_sender)
{
    const int64_t zero = any_start(), start = zero + 1 + int64_t(vf_u32());
    F f; const uint16_t first = vf_u16(); uint64_t tx = 0, clk = 0; uint32_t kinds = vf_part(1u << vf_param("N", 4)); f.process_clock(at(start), jr_timestamp_t{ first });
    for (uint32_t i = 0, n = vf_param("N", 4); i < n; ++i)
    {
        tx += vf_u16(); vf_assume(tx - clk < 65536); const int64_t sent = start + int64_t(tx) * 32000; const jr_timestamp_t ts{ uint16_t(first + tx) };
        const bool is_clock = kinds & 1; kinds >>= 1;
        if (is_clock) { f.process_clock(at(sent), ts); clk = tx; CHECK(f.jitter().count() == 0); }
        else CHECKM(ns(f.schedule_message(at(sent + int64_t(vf_u32())), ts)) == sent + 2000000, "send time plus security offset");
    }
}
// many clocks and messages: 300 of them, hundreds of wrap-arounds
ENTRY(many)
{
    static const uint16_t starts[] = { 0, 1, 0x7FFF, 0x8000, 0xFFFF }; static const uint32_t steps[] = { 65535, 32768, 31250, 65000, 3125, 1 };
    static const int64_t zeros[] = { 0, 1763447000000000000 }; const int64_t zero = clock_ns = zeros[vf_choose(2)]; const uint32_t part = vf_part(6); uint16_t ts = starts[vf_choose(5)]; const uint32_t kind = vf_choose(2);
    F f; Ref r; int64_t t = zero + 1000;
    for (uint32_t i = 0; i < 300; ++i)
    {
        const int64_t rx = t + (kind ? int64_t((i * 37) % 11) * 150000 : 0); // up to 1.5 ms late
        f.process_clock(at(rx), jr_timestamp_t{ ts }); r.process(rx, ts); offset_after(f, r);
        const uint16_t m = uint16_t(ts + steps[part] / 3); CHECKM(ns(f.schedule_message(at(rx + 5), jr_timestamp_t{ m })) == r.schedule(rx + 5, m), "scheduled time");
        ts = uint16_t(ts + steps[part]); t += int64_t(steps[part]) * 32000;
    }
    const uint16_t s = vf_u16(); CHECKM(ns(f.schedule_message(at(t), jr_timestamp_t{ s })) == r.schedule(t, s), "scheduled time");
}
