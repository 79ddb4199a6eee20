// C13: byte stream parser, channel voice and system messages
#include "parser_ref.h"
#include <midi/sysex.h>
#include <midi/midi1_byte_stream.h>
using namespace midi;
struct Log { uint32_t n = 0; uint32_t w[4][4]; void add(const universal_packet& p) { if (n < 4) for (int i = 0; i < 4; ++i) w[n][i] = p.data[i]; ++n; } };
static void take(Log& l, const universal_packet& p) { if ((p.data[0] >> 28) != 3) l.add(p); } // exclusive packets are C14's
static void compare(Log& l, const ref_parser& r, bool on)
{
    CHECK(l.n == (r.emit && on ? 1u : 0u));
    if (l.n) { CHECK(l.w[0][0] == r.word); CHECK(l.w[0][1] == 0 && l.w[0][2] == 0 && l.w[0][3] == 0); vf_observe(l.w[0][0]); }
    l.n = 0;
}
static void run(midi1_byte_stream_parser& p, ref_parser& r, Log& l, uint32_t n, uint32_t mode)
{
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint8_t b = vf_u8();
        if (mode == 2) { const bool on = vf_bool(); p.enable_callbacks(on); CHECK(p.callbacks_enabled() == on); p.feed(b); r.step(b); compare(l, r, on); }
        else { if (mode == 1) p.feed(&b, 1); else p.feed(b); r.step(b); compare(l, r, true); }
        vf_merge();
    }
}
ENTRY(history_packets) // exclusives delivered as packets
{
    Log l; ref_parser r; r.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { take(l, q); });
    CHECK(p.group() == r.group);
    run(p, r, l, vf_param("N", 6), 0);
}
ENTRY(history_sysex_callback) // exclusives delivered as messages
{
    Log l; ref_parser r; r.group = vf_u4();
    midi1_byte_stream_parser p([&](universal_packet q) { CHECK((q.data[0] >> 28) != 3); take(l, q); }, [&](const sysex7&) {});
    p.set_group(r.group); CHECK(p.group() == r.group);
    run(p, r, l, vf_param("N", 6), 0);
}
ENTRY(history_disabled) // callbacks switched on and off at any time
{
    Log l; ref_parser r; r.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { take(l, q); }, {}, false);
    CHECK(!p.callbacks_enabled());
    run(p, r, l, vf_param("N", 5), 2);
}
ENTRY(reset_is_fresh) // any history, reset, any history
{
    Log l; ref_parser r; r.group = vf_u4(); const bool cb = vf_choose(2);
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { take(l, q); }, cb ? midi1_byte_stream_parser::sysex_callback([](const sysex7&) {}) : midi1_byte_stream_parser::sysex_callback{});
    const uint32_t n = vf_param("N", 4);
    for (uint32_t i = 0; i < n; ++i) { p.feed(vf_u8()); l.n = 0; vf_merge(); }
    p.reset();
    ref_parser f; f.group = r.group;
    run(p, f, l, vf_param("M", 4), 0);
}
// the division into feed calls does not matter: any history, a block of 0..K bytes in one call (exact-size buffer), any history
ENTRY(chunks)
{
    Log l; ref_parser r; r.group = vf_u4(); const bool cb = vf_choose(2);
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { take(l, q); }, cb ? midi1_byte_stream_parser::sysex_callback([](const sysex7&) {}) : midi1_byte_stream_parser::sysex_callback{});
    run(p, r, l, vf_param("N", 2), 1);
    const uint32_t k = vf_part(vf_param("K", 4)), form = vf_choose(2);
    uint8_t* b = new uint8_t[k]; for (uint32_t i = 0; i < k; ++i) b[i] = vf_u8();
    if (form) p.feed(b, size_t(k)); else p.feed(b, b + k);
    uint32_t e = 0;
    for (uint32_t i = 0; i < k; ++i) { r.step(b[i]); if (r.emit) { if (e < l.n && e < 4) { CHECK(l.w[e][0] == r.word); vf_observe(l.w[e][0]); } ++e; } }
    CHECK(l.n == e); l.n = 0;
    delete[] b;
    const uint32_t m = vf_param("M", 2);
    if (m) vf_merge();
    run(p, r, l, m, 1);
}
// many messages: running status with 300 messages and more, real time bytes in between, in one call or divided, then other messages
ENTRY(many)
{
    static uint32_t got[2000]; static uint8_t b[4000]; uint32_t n = 0, got_n = 0;
    static const uint8_t kinds[] = { 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0 };
    const uint8_t group = vf_u4(); const uint32_t k = vf_part(7), total = vf_choose(2) ? 900 : 513;
    midi1_byte_stream_parser p(group, [&](universal_packet q) { CHECK((q.data[0] >> 28) != 3 && q.data[1] == 0 && q.data[2] == 0 && q.data[3] == 0); if (got_n < 2000) got[got_n] = q.data[0]; ++got_n; });
    b[n++] = kinds[k] | vf_u4();
    for (uint32_t i = 0; i < total; ++i) { if (i % 7 == 3) b[n++] = i % 14 == 3 ? 0xF8 : 0xFE; b[n++] = i % 16 < 2 || i > 500 ? vf_u7() : uint8_t(i & 0x7F); }
    b[n++] = 0xF6; b[n++] = vf_u7(); b[n++] = 0x90 | vf_u4(); b[n++] = vf_u7(); b[n++] = vf_u7(); b[n++] = 0xF2; b[n++] = vf_u7(); b[n++] = vf_u7(); b[n++] = vf_u7();
    for (uint32_t i = 0; i < 300; ++i) { b[n++] = kinds[(k + i) % 7] | (i & 15); b[n++] = vf_u7(); if ((kinds[(k + i) % 7] & 0xE0) != 0xC0) b[n++] = uint8_t(i & 0x7F); }
    const uint32_t cut = vf_choose(3); const uint32_t c = cut == 0 ? n : cut == 1 ? 256 : n / 2 + 1;
    p.feed(b, size_t(c)); p.feed(b + c, b + n);
    ref_parser r; r.group = group; uint32_t e = 0;
    for (uint32_t i = 0; i < n; ++i) { r.step(b[i]); if (r.emit) { if (e < got_n && e < 2000) CHECKM(got[e] == r.word, "message"); ++e; } }
    CHECKM(got_n == e, "number of messages"); vf_observe(e);
}
// the group may change between messages: what begins afterwards has the new group
ENTRY(regroup)
{
    Log l; ref_parser r; r.group = vf_u4();
    midi1_byte_stream_parser p(r.group, [&](universal_packet q) { take(l, q); });
    run(p, r, l, vf_param("N", 3), 0);
    r.group = vf_u4(); p.set_group(r.group); CHECK(p.group() == r.group);
    const uint8_t b = vf_u8(); vf_assume(b >= 0x80 && b < 0xF8); p.feed(b); r.step(b); compare(l, r, true); vf_merge();
    run(p, r, l, vf_param("M", 3), 0);
}
// one call may pass any number of bytes: lengths around 2^15 and 2^16
ENTRY(one_call)
{
    static const uint32_t lengths[] = { 32768, 32771, 65535, 65536, 65537, 65540, 131075 };
    static uint32_t got[131200]; static uint8_t b[131200]; uint32_t got_n = 0;
    const uint32_t n = lengths[vf_part(7)]; const uint8_t group = vf_u4();
    midi1_byte_stream_parser p(group, [&](universal_packet q) { if (got_n < 131200) got[got_n] = q.data[0]; ++got_n; });
    b[0] = 0xB0 | vf_u4();
    for (uint32_t i = 1; i < n; ++i) b[i] = i % 1021 < 2 || i + 6 > n ? vf_u7() : i % 3 == 0 ? uint8_t(i % 99) : uint8_t((i >> 7) & 0x7F);
    b[n / 2] = 0xF8; b[n - 5] = 0xE0 | vf_u4(); b[n - 2] = 0xFA;
    if (vf_choose(2)) p.feed(b, size_t(n)); else p.feed(b, b + n);
    ref_parser r; r.group = group; uint32_t e = 0;
    for (uint32_t i = 0; i < n; ++i) { r.step(b[i]); if (r.emit) { if (e < got_n) CHECKM(got[e] == r.word, "message"); ++e; } }
    CHECKM(got_n == e, "number of messages"); vf_observe(e);
}
