// C03: saturating pitch / controller arithmetic
#include "vf.h"
#include <midi/types.h>
using namespace midi;

static int64_t clamp_ref(int64_t v, int64_t lo, int64_t hi) { if (v < lo) return lo; if (v > hi) return hi; return v; }
static const int64_t U32 = 0xFFFFFFFFll, I32L = -2147483648ll, I32H = 2147483647ll;

ENTRY(increments)
{
    int32_t a = int32_t(vf_u32()), b = int32_t(vf_u32());
    pitch_increment x{ a }, y{ b };
    CHECK(x.value == a);
    const int64_t e = clamp_ref(int64_t(a) + int64_t(b), I32L, I32H);
    CHECK((x + y).value == e);
    CHECK((y + x).value == e);
    pitch_increment z{ a }; z += y;
    CHECK(z.value == e);
    CHECK(y.value == b && x.value == a);
    pitch_increment w{ a }; w += w;
    CHECK(w.value == clamp_ref(2 * int64_t(a), I32L, I32H));
    CHECK((x == y) == (a == b));
    CHECK((x != y) == (a != b));
    CHECK(pitch_increment{}.value == 0);
    vf_observe(uint32_t((x + y).value));
}
ENTRY(pitch)
{
    uint32_t p = vf_u32(), q = vf_u32(); int32_t i = int32_t(vf_u32());
    const pitch_7_25 x{ p };
    const int64_t e = clamp_ref(int64_t(p) + int64_t(i), 0, U32);
    CHECK((x + pitch_increment{ i }).value == e);
    pitch_7_25 y{ p }; y += pitch_increment{ i };
    CHECK(y.value == e);
    CHECK(x.value == p);
    CHECK(x.note_nr() == (p >> 25));
    CHECK((x == pitch_7_25{ q }) == (p == q));
    CHECK((x != pitch_7_25{ q }) == (p != q));
    CHECK(pitch_7_25{}.value == 0 && pitch_7_9{}.value == 0);
    vf_observe((x + pitch_increment{ i }).value);
}
ENTRY(controller)
{
    uint32_t p = vf_u32(); int32_t i = int32_t(vf_u32()), k = int32_t(vf_u32());
    const controller_value x{ p };
    const int64_t e = clamp_ref(int64_t(p) + int64_t(i), 0, U32);
    CHECK((x + controller_increment{ i }).value == e);
    controller_value y{ p }; y += controller_increment{ i };
    CHECK(y.value == e);
    CHECK(x.value == p);
    CHECK((controller_increment{ i } == controller_increment{ k }) == (i == k));
    CHECK((controller_increment{ i } != controller_increment{ k }) == (i != k));
    CHECK(controller_increment{}.value == 0);
    vf_observe((x + controller_increment{ i }).value);
}
ENTRY(bend_times_sensitivity)
{
    uint32_t b = vf_u32(), s = vf_u32();
    const pitch_bend pb{ b }; const pitch_bend_sensitivity ps{ s };
    const int64_t d = int64_t(b) - 0x80000000ll;
    int64_t m = d * int64_t(s) / 2147483648ll;
    m = clamp_ref(m, I32L, I32H);
    const pitch_increment r = pb * ps;
    CHECK(r.value == m);
    CHECK((ps * pb).value == r.value);
    if (b == 0x80000000u || s == 0) CHECK(r.value == 0);
    if (b == 0 && s <= 0x80000000u) CHECK(r.value == -int64_t(s));
    vf_observe(uint32_t(r.value));
}
ENTRY(conversions)
{
    uint8_t n = vf_u7(); uint16_t f = vf_u16(); uint32_t p = vf_u32();
    CHECK(pitch_7_9{ n }.value == uint32_t(n) << 9);
    CHECK(pitch_7_9{ n }.note_nr() == n);
    CHECK(pitch_7_9{ f }.value == f);
    CHECK(pitch_7_9{ f }.note_nr() == f >> 9);
    CHECK((pitch_7_9{ f } == pitch_7_9{ n }) == (f == (uint32_t(n) << 9)));
    CHECK((pitch_7_9{ f } != pitch_7_9{ n }) == (f != (uint32_t(n) << 9)));
    CHECK(pitch_7_25{ n }.value == uint32_t(n) << 25);
    CHECK(pitch_7_25{ n }.note_nr() == n);
    CHECK(pitch_7_25{ pitch_7_9{ f } }.value == uint32_t(f) << 16);
    CHECK(pitch_7_25{ pitch_7_9{ f } }.note_nr() == pitch_7_9{ f }.note_nr());
    pitch_7_25 a{ p }; a = pitch_7_9{ f };
    CHECK(a.value == uint32_t(f) << 16);
    CHECK(pitch_7_25{ controller_value{ p } }.value == p);
    CHECK(controller_value{ pitch_7_25{ p } }.value == p);
    CHECK(pitch_bend_sensitivity{}.value == 2u << 25);
    CHECK(pitch_bend_sensitivity{ p }.value == p);
    CHECK(pitch_bend_sensitivity{ n }.value == uint32_t(n) << 25);
    vf_observe(a.value);
}
