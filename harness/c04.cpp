// C04: floating point conversions
#include "vf.h"
#include <cstring>
#include <cmath>
#include <midi/types.h>
using namespace midi;

static double dbl() { uint64_t u = vf_u64(); double d; memcpy(&d, &u, 8); vf_assume(d == d); return d; }
static float  flt() { uint32_t u = vf_u32(); float d; memcpy(&d, &u, 4); vf_assume(d == d); return d; }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t bits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

// nominal mapping [0..1] <-> unsigned: 2^n steps below center, 2^n - 1 steps above it
static uint16_t ref16(double d) { if (d <= 0.) return 0; if (d >= 1.) return 0xFFFF; if (d <= 0.5) return uint16_t(d * 65536.); return uint16_t(0x8000 + uint16_t((d - 0.5) * 65535.)); }
static uint32_t ref32(double d) { if (d <= 0.) return 0; if (d >= 1.) return 0xFFFFFFFFu; if (d <= 0.5) return uint32_t(d * 4294967296.); return 0x80000000u + uint32_t((d - 0.5) * 4294967295.); }

ENTRY(velocity_from_double)
{
    double d = dbl(); uint16_t v = velocity{ d }.value;
    CHECK(v == ref16(d));
    if (d <= 0.) CHECK(v == 0);
    if (d >= 1.) CHECK(v == 0xFFFF);
    if (d > 0. && d <= 0.5) { CHECK(v <= 0x8000); CHECK(double(v) <= d * 65536. && d * 65536. < double(v) + 1); }
    if (d >= 0.5) CHECK(v >= 0x8000);
    vf_observe(v);
}
ENTRY(velocity_from_float)
{
    float f = flt(); uint16_t v = velocity{ f }.value;
    CHECK(v == ref16(f));
    if (f <= 0.f) CHECK(v == 0);
    if (f >= 1.f) CHECK(v == 0xFFFF);
    if (f > 0.f && f <= 0.5f) { CHECK(v <= 0x8000); CHECK(double(v) <= f * 65536. && f * 65536. < double(v) + 1); }
    if (f >= 0.5f) CHECK(v >= 0x8000);
    vf_observe(v);
}
ENTRY(controller_from_double)
{
    double d = dbl(); uint32_t v = controller_value{ d }.value;
    CHECK(v == ref32(d));
    if (d <= 0.) CHECK(v == 0);
    if (d >= 1.) CHECK(v == 0xFFFFFFFFu);
    if (d > 0. && d <= 0.5) { CHECK(v <= 0x80000000u); CHECK(double(v) <= d * 4294967296. && d * 4294967296. < double(v) + 1); }
    if (d == 0.5) CHECK(v == 0x80000000u);
    vf_observe(v);
}
ENTRY(controller_from_float)
{
    float f = flt(); uint32_t v = controller_value{ f }.value;
    CHECK(v == ref32(f));
    if (f <= 0.f) CHECK(v == 0);
    if (f >= 1.f) CHECK(v == 0xFFFFFFFFu);
    if (f > 0.f && f <= 0.5f) { CHECK(v <= 0x80000000u); CHECK(double(v) <= f * 4294967296. && f * 4294967296. < double(v) + 1); }
    if (f == 0.5f) CHECK(v == 0x80000000u);
    vf_observe(v);
}
ENTRY(bend_from_double)
{
    double d = dbl(); uint32_t v = pitch_bend{ d }.value;
    CHECK(v == ref32((d + 1.) / 2.));
    if (d <= -1.) CHECK(v == 0);
    if (d >= 1.) CHECK(v == 0xFFFFFFFFu);
    if (d == 0.) CHECK(v == 0x80000000u);
    if (d < 0.) CHECK(v <= 0x80000000u);
    vf_observe(v);
}
ENTRY(bend_from_float)
{
    float f = flt(); uint32_t v = pitch_bend{ f }.value;
    CHECK(v == ref32((f + 1.f) / 2.f));
    if (f <= -1.f) CHECK(v == 0);
    if (f >= 1.f) CHECK(v == 0xFFFFFFFFu);
    if (f == 0.f) CHECK(v == 0x80000000u);
    if (f < 0.f) CHECK(v <= 0x80000000u);
    vf_observe(v);
}
// readings
ENTRY(velocity_reading)
{
    uint16_t v = vf_u16(); double d = velocity{ v }.as_double(); float f = velocity{ v }.as_float();
    CHECK(d == (v <= 0x8000 ? v / 65536. : v / 65535.));
    CHECK(bits(f) == bits(float(d)));
    if (v == 0) CHECK(d == 0. && f == 0.f);
    if (v == 0x8000) CHECK(d == 0.5 && f == 0.5f);
    if (v == 0xFFFF) CHECK(d == 1. && f == 1.f);
    vf_observe(bits(d));
}
ENTRY(controller_reading)
{
    uint32_t v = vf_u32(); double d = controller_value{ v }.as_double(); float f = controller_value{ v }.as_float();
    CHECK(d == (v <= 0x80000000u ? v / 4294967296. : v / 4294967295.));
    CHECK(bits(f) == bits(float(d)));
    if (v == 0) CHECK(d == 0. && f == 0.f);
    if (v == 0x80000000u) CHECK(d == 0.5 && f == 0.5f);
    if (v == 0xFFFFFFFFu) CHECK(d == 1. && f == 1.f);
    vf_observe(bits(d));
}
ENTRY(bend_reading)
{
    uint32_t v = vf_u32(); double d = pitch_bend{ v }.as_double(); float f = pitch_bend{ v }.as_float();
    CHECK(d == (v >= 0x80000000u ? (v - 0x80000000u) / 2147483647. : (0x80000000u - v) / -2147483648.));
    CHECK(bits(f) == bits(float(d)));
    if (v == 0) CHECK(d == -1. && f == -1.f);
    if (v == 0x80000000u) CHECK(d == 0. && f == 0.f);
    if (v == 0xFFFFFFFFu) CHECK(d == 1. && f == 1.f);
    vf_observe(bits(d));
}
// range of the readings (solver works on the division)
ENTRY(velocity_reading_range) { uint16_t v = vf_u16(); double d = velocity{ v }.as_double(); float f = velocity{ v }.as_float(); CHECK(d >= 0. && d <= 1.); CHECK(f >= 0.f && f <= 1.f); }
ENTRY(controller_reading_range) { uint32_t v = vf_u32(); double d = controller_value{ v }.as_double(); CHECK(d >= 0. && d <= 1.); }
ENTRY(bend_reading_range) { uint32_t v = vf_u32(); double d = pitch_bend{ v }.as_double(); CHECK(d >= -1. && d <= 1.); }
ENTRY(velocity_roundtrip) { uint16_t v = vf_u16(); double d = velocity{ v }.as_double(); CHECK(velocity{ d }.value == v); }
ENTRY(velocity_roundtrip_low) { uint16_t v = vf_u16(); vf_assume(v <= 0x8000); double d = velocity{ v }.as_double(); CHECK(velocity{ d }.value == v); float f = velocity{ v }.as_float(); CHECK(velocity{ f }.value == v); }
ENTRY(velocity_roundtrip_float) { uint16_t v = vf_u16(); float d = velocity{ v }.as_float(); CHECK(velocity{ d }.value == v); }
ENTRY(controller_roundtrip) { uint32_t v = vf_u32(); double d = controller_value{ v }.as_double(); CHECK(controller_value{ d }.value == v); }
ENTRY(controller_roundtrip_low) { uint32_t v = vf_u32(); vf_assume(v <= 0x80000000u); double d = controller_value{ v }.as_double(); CHECK(controller_value{ d }.value == v); }
ENTRY(controller_roundtrip_high16) { uint32_t v = (uint32_t(vf_u16()) << 16) | 0xFFFF; vf_assume(v >= 0x80000000u && (v >> 26) == 0x3F); double d = controller_value{ v }.as_double(); CHECK(controller_value{ d }.value == v); }
// pitches
ENTRY(pitch79_roundtrip)
{
    uint16_t v = vf_u16(), w = vf_u16(); double d = pitch_7_9{ v }.as_double(); float f = pitch_7_9{ v }.as_float();
    CHECK(d >= 0. && d < 128.); CHECK(d * 512. == v); CHECK(f * 512.f == v); CHECK(pitch_7_9{ d }.value == v); CHECK(pitch_7_9{ f }.value == v);
    if (v < w) CHECK(d < pitch_7_9{ w }.as_double());
    vf_observe(bits(d));
}
ENTRY(pitch725_roundtrip)
{
    uint32_t v = vf_u32(); double d = pitch_7_25{ v }.as_double(); float f = pitch_7_25{ v }.as_float();
    CHECK(d >= 0. && d < 128.); CHECK(d * 33554432. == v); CHECK(pitch_7_25{ d }.value == v);
    CHECK(bits(f) == bits(float(d))); CHECK(f >= 0.f && f <= 128.f);
    vf_observe(bits(d));
}
template<typename F> static void from_pitch79(F d)
{
    uint16_t v = pitch_7_9{ d }.value;
    if (d <= F(0)) CHECK(v == 0);
    if (d >= F(128)) CHECK(v == 0xFFFF);
    if (d > F(0) && d < F(128)) { double e = double(d) * 512. - double(v); CHECK(e <= 0.5 || v == 0xFFFF); CHECK(e >= -0.5); CHECK(e < 1); }
    vf_observe(v);
}
template<typename F> static void from_pitch725(F d)
{
    uint32_t v = pitch_7_25{ d }.value;
    if (d <= F(0)) CHECK(v == 0);
    if (d >= F(128)) CHECK(v == 0xFFFFFFFFu);
    if (d > F(0) && d < F(128)) { double e = double(d) * 33554432. - double(v); CHECK(e <= 0.5 || v == 0xFFFFFFFFu); CHECK(e >= -0.5); CHECK(e < 1); }
    vf_observe(v);
}
template<typename F> static void from_increment(F d)
{
    int32_t v = pitch_increment{ d }.value;
    if (d <= F(-64)) CHECK(v == INT32_MIN);
    if (d >= F(64)) CHECK(v == INT32_MAX);
    if (d > F(-64) && d < F(64)) { double e = double(d) * 33554432. - double(v); CHECK(e <= 0.5 || v == INT32_MAX); CHECK(e >= -0.5); CHECK(e < 1); }
    vf_observe(uint32_t(v));
}
ENTRY(pitch79_from_double) { from_pitch79<double>(dbl()); }
ENTRY(pitch79_from_float) { from_pitch79<float>(flt()); }
ENTRY(pitch725_from_double) { from_pitch725<double>(dbl()); }
ENTRY(pitch725_from_float) { from_pitch725<float>(flt()); }
ENTRY(increment_from_double) { from_increment<double>(dbl()); }
ENTRY(increment_from_float) { from_increment<float>(flt()); }
ENTRY(detune_double)
{
    uint32_t p = vf_u32(); double d = dbl();
    const int64_t inc = d >= 0. ? int64_t(pitch_7_25{ d }.value) : -int64_t(pitch_7_25{ -d }.value);
    int64_t e = int64_t(p) + inc; if (e < 0) e = 0; if (e > 0xFFFFFFFFll) e = 0xFFFFFFFFll;
    CHECK((pitch_7_25{ p } + d).value == e);
    if (d == 0.) CHECK((pitch_7_25{ p } + d).value == p);
    vf_observe((pitch_7_25{ p } + d).value);
}
ENTRY(detune_float)
{
    uint32_t p = vf_u32(); float d = flt();
    CHECK((pitch_7_25{ p } + d).value == (pitch_7_25{ p } + double(d)).value);
    vf_observe((pitch_7_25{ p } + d).value);
}
