// C02: value scaling
#include "vf.h"
#include <midi/types.h>
using namespace midi;

// MIDI 2.0 bit scaling and resolution: expanded bit repeat scheme, written independently bit by bit
static uint32_t ref_up(uint32_t v, unsigned x, unsigned y)
{
    const unsigned s = y - x;
    uint32_t r = uint32_t(uint64_t(v) << s);
    if (v <= (1u << (x - 1)))
        return r;
    for (unsigned i = 0; i < s; ++i) // i counts from the most significant fill bit
    {
        const unsigned src = (x - 2) - i % (x - 1);
        r |= ((v >> src) & 1u) << (s - 1 - i);
    }
    return r;
}

ENTRY(up_7_16)
{
    uint8_t v = vf_u7(), u = vf_u7();
    uint16_t r = upsample_7_to_16bit(v);
    CHECK(r == ref_up(v, 7, 16));
    CHECK(r == upsample_x_to_ybit(v, 7, 16));
    CHECK(downsample_16_to_7bit(r) == v);
    if (v == 0) CHECK(r == 0);
    if (v == 64) CHECK(r == 0x8000);
    if (v == 127) CHECK(r == 0xFFFF);
    if (u < v) CHECK(upsample_7_to_16bit(u) < r);
    CHECK(velocity{ v }.value == r);
    CHECK(velocity{ v }.as_uint7() == v);
    vf_observe(r);
}
ENTRY(up_7_32)
{
    uint8_t v = vf_u7(), u = vf_u7();
    uint32_t r = upsample_7_to_32bit(v);
    CHECK(r == ref_up(v, 7, 32));
    CHECK(r == upsample_x_to_ybit(v, 7, 32));
    CHECK(downsample_32_to_7bit(r) == v);
    if (v == 0) CHECK(r == 0);
    if (v == 64) CHECK(r == 0x80000000u);
    if (v == 127) CHECK(r == 0xFFFFFFFFu);
    if (u < v) CHECK(upsample_7_to_32bit(u) < r);
    CHECK(controller_value{ v }.value == r);
    CHECK(controller_value{ v }.as_uint7() == v);
    vf_observe(r);
}
ENTRY(up_14_32)
{
    uint16_t v = vf_u14(), u = vf_u14();
    uint32_t r = upsample_14_to_32bit(v);
    CHECK(r == ref_up(v, 14, 32));
    CHECK(r == upsample_x_to_ybit(v, 14, 32));
    CHECK(downsample_32_to_14bit(r) == v);
    if (v == 0) CHECK(r == 0);
    if (v == 0x2000) CHECK(r == 0x80000000u);
    if (v == 0x3FFF) CHECK(r == 0xFFFFFFFFu);
    if (u < v) CHECK(upsample_14_to_32bit(u) < r);
    CHECK(controller_value{ v }.value == r);
    CHECK(controller_value{ v }.as_uint14() == v);
    CHECK(pitch_bend{ v }.value == r);
    CHECK(pitch_bend{ v }.as_uint14() == v);
    vf_observe(r);
}
ENTRY(down)
{
    uint16_t a = vf_u16(), a2 = vf_u16(); uint32_t b = vf_u32(), b2 = vf_u32();
    CHECK(downsample_16_to_7bit(a) == (a >> 9));
    CHECK(downsample_32_to_7bit(b) == (b >> 25));
    CHECK(downsample_32_to_14bit(b) == (b >> 18));
    CHECK(velocity{ a }.as_uint7() == (a >> 9));
    CHECK(controller_value{ b }.as_uint7() == (b >> 25));
    CHECK(controller_value{ b }.as_uint14() == (b >> 18));
    CHECK(pitch_bend{ b }.as_uint14() == (b >> 18));
    if (a <= a2) CHECK(downsample_16_to_7bit(a) <= downsample_16_to_7bit(a2));
    if (b <= b2) { CHECK(downsample_32_to_7bit(b) <= downsample_32_to_7bit(b2)); CHECK(downsample_32_to_14bit(b) <= downsample_32_to_14bit(b2)); }
    // the value types compare by value and start at their documented defaults
    CHECK((velocity{ a } == velocity{ a2 }) == (a == a2));
    CHECK((velocity{ a } != velocity{ a2 }) == (a != a2));
    CHECK((controller_value{ b } == controller_value{ b2 }) == (b == b2));
    CHECK((controller_value{ b } != controller_value{ b2 }) == (b != b2));
    CHECK((pitch_bend{ b } == pitch_bend{ b2 }) == (b == b2));
    CHECK((pitch_bend{ b } != pitch_bend{ b2 }) == (b != b2));
    CHECK(velocity{}.value == 0x8000 && pitch_bend{}.value == 0x80000000u && controller_value{}.value == 0);
    pitch_bend pb{ b }; pb.reset(); CHECK(pb.value == 0x80000000u);
}
ENTRY(up_x_y)
{
    const unsigned x = 2 + vf_part(30);            // 2..31
    const unsigned y = x + 1 + vf_choose(32 - x);  // x+1..32
    uint32_t v = vf_u32();
    vf_assume(uint64_t(v) < (uint64_t(1) << x));
    uint32_t r = upsample_x_to_ybit(v, uint8_t(x), uint8_t(y));
    CHECK(r == ref_up(v, x, y));
    CHECK((r >> (y - x)) == v); // lossless
    const uint32_t maxy = uint32_t((uint64_t(1) << y) - 1);
    CHECK(r <= maxy);
    if (v == 0) CHECK(r == 0);
    if (v == (1u << (x - 1))) CHECK(r == (1u << (y - 1)));
    if (v == uint32_t((uint64_t(1) << x) - 1)) CHECK(r == maxy);
    vf_observe(r);
}
