// C01: universal packet words, bytes, type, group, size, equality
#include "vf.h"
#include <midi/universal_packet.h>
using namespace midi;

static const uint8_t ref_size[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
static uint8_t ref_byte(const uint32_t w[4], unsigned b) { return uint8_t(w[b / 4] >> (24 - 8 * (b % 4))); }

ENTRY(accessors)
{
    uint32_t w[4] = { vf_u32(), vf_u32(), vf_u32(), vf_u32() };
    const universal_packet p(w[0], w[1], w[2], w[3]);
    CHECK(p.data[0] == w[0] && p.data[1] == w[1] && p.data[2] == w[2] && p.data[3] == w[3]);
    const unsigned t = w[0] >> 28;
    CHECK(unsigned(p.type()) == t);
    CHECK(p.group() == ((w[0] >> 24) & 15));
    CHECK(p.status() == ((w[0] >> 16) & 255));
    CHECK(p.byte2() == ((w[0] >> 16) & 255));
    CHECK(p.byte3() == ((w[0] >> 8) & 255));
    CHECK(p.byte4() == (w[0] & 255));
    CHECK(p.size() == ref_size[t]);
    CHECK(p.has_channel() == (t == 2 || t == 4 || t == 0xD));
    if (t == 2 || t == 4 || t == 0xD)
        CHECK(p.channel() == ((w[0] >> 16) & 15));
    for (unsigned b = 0; b < 16; ++b)
    {
        CHECK(p.get_byte(b) == ref_byte(w, b));
        CHECK(p.get_byte_7bit(b) == (ref_byte(w, b) & 0x7F));
    }
    CHECK(p.is_utility_message() == (t == 0));
    CHECK(p.is_system_message() == (t == 1));
    CHECK(p.is_channel_voice_message() == (t == 2 || t == 4));
    CHECK(p.is_data_message() == (t == 3 || t == 5));
    const uint8_t st = ref_byte(w, 1);
    const bool m1 = (t == 1 && (st == 0xF1 || st == 0xF2 || st == 0xF3 || st == 0xF6 || st == 0xF8 || st == 0xFA || st == 0xFB || st == 0xFC || st == 0xFE || st == 0xFF)) ||
                    (t == 2 && st >= 0x80 && st < 0xF0);
    CHECK(p.is_midi1_protocol_message() == m1);
    vf_observe(p.size()); vf_observe(p.get_byte(5)); vf_observe(p.is_midi1_protocol_message());
}

ENTRY(constructors)
{
    uint32_t a = vf_u32(), b = vf_u32(), c = vf_u32();
    universal_packet p0; universal_packet p1(a); universal_packet p2(a, b); universal_packet p3(a, b, c);
    for (int i = 0; i < 4; ++i)
    {
        CHECK(p0.data[i] == 0);
        CHECK(p1.data[i] == (i == 0 ? a : 0));
        CHECK(p2.data[i] == (i == 0 ? a : i == 1 ? b : 0));
        CHECK(p3.data[i] == (i == 0 ? a : i == 1 ? b : i == 2 ? c : 0));
    }
    universal_packet q(p3); universal_packet r; r = p3;
    p3.reset();
    for (int i = 0; i < 4; ++i)
    {
        CHECK(p3.data[i] == 0);
        CHECK(q.data[i] == (i == 0 ? a : i == 1 ? b : i == 2 ? c : 0));
        CHECK(r.data[i] == q.data[i]);
    }
}

ENTRY(mutators)
{
    uint32_t w[4] = { vf_u32(), vf_u32(), vf_u32(), vf_u32() };
    uint8_t v = vf_u8();
    unsigned b = vf_choose(16);
    {
        universal_packet p(w[0], w[1], w[2], w[3]);
        p.set_byte(b, v);
        universal_packet q(w[0], w[1], w[2], w[3]);
        q.set_byte_7bit(b, v);
        for (unsigned i = 0; i < 16; ++i)
        {
            CHECK(ref_byte(p.data, i) == (i == b ? v : ref_byte(w, i)));
            CHECK(ref_byte(q.data, i) == (i == b ? (v & 0x7F) : ref_byte(w, i)));
        }
    }
    {
        universal_packet p(w[0], w[1], w[2], w[3]);
        uint8_t g = v & 15;
        p.set_group(g);
        CHECK(p.data[0] == ((w[0] & 0xF0FFFFFF) | uint32_t(g) << 24));
        CHECK(p.data[1] == w[1] && p.data[2] == w[2] && p.data[3] == w[3]);
        universal_packet q(w[0], w[1], w[2], w[3]);
        q.set_type(packet_type(g));
        CHECK(q.data[0] == ((w[0] & 0x0FFFFFFF) | uint32_t(g) << 28));
        CHECK(q.data[1] == w[1] && q.data[2] == w[2] && q.data[3] == w[3]);
    }
}

ENTRY(set_byte_symbolic_index)
{
    uint32_t w[4] = { vf_u32(), vf_u32(), vf_u32(), vf_u32() };
    uint8_t v = vf_u8(); uint64_t b = vf_u64();
    universal_packet p(w[0], w[1], w[2], w[3]);
    vf_assume(b < 16);
    p.set_byte(b, v);
    CHECK(p.get_byte(b) == v);
    uint8_t j = vf_u8(); vf_assume(j < 16 && j != b);
    CHECK(p.get_byte(j) == ref_byte(w, j));
}

ENTRY(equality)
{
    uint32_t w[4] = { vf_u32(), vf_u32(), vf_u32(), vf_u32() };
    uint32_t x[4] = { vf_u32(), vf_u32(), vf_u32(), vf_u32() };
    universal_packet p(w[0], w[1], w[2], w[3]), q(x[0], x[1], x[2], x[3]);
    bool e = true;
    for (unsigned i = 0; i < ref_size[w[0] >> 28]; ++i) if (w[i] != x[i]) e = false;
    CHECK((p == q) == e);
    CHECK((q == p) == e);
    CHECK((p != q) == !e);
    CHECK(p == p);
    CHECK(!(p != p));
}
