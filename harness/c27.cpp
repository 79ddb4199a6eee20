// C27: exclusive message fields
#include "ci.h"
#include <algorithm>
#include <type_traits>
template<typename T> static bool is(const T& s, const uint8_t* b, uint32_t n) { if (s.data.size() != n) return false; bool r = true; for (uint32_t i = 0; i < n; ++i) r &= s.data[i] == b[i]; return r; }
ENTRY(fields)
{
    const uint32_t pre = vf_choose(4), post = vf_choose(3); sysex7 s(vf_u32()); const uint32_t mf = s.manufacturerID; uint8_t b[64]; uint32_t n = 0;
    auto raw = [&](uint32_t k) { for (uint32_t i = 0; i < k; ++i) { b[n] = vf_u7(); s.add_uint7(b[n]); ++n; } };
    raw(pre);
    const uint32_t what = vf_choose(6); const uint32_t at = n;
    uint32_t v = vf_u32(); device_identity id; uint8_t d[5];
    switch (what)
    {
    case 0: vf_assume(v < 0x80); s.add_uint7(uint8_t(v)); b[n++] = uint8_t(v); break;
    case 1: vf_assume(v < 0x4000); s.add_uint14(uint16_t(v)); b[n++] = v & 0x7F; b[n++] = uint8_t(v >> 7); break;
    case 2: vf_assume(v < 0x10000000); s.add_uint28(v); for (int i = 0; i < 4; ++i) b[n++] = (v >> (7 * i)) & 0x7F; break;
    case 3: s.add_uint32(v); for (int i = 0; i < 5; ++i) b[n++] = (v >> (7 * i)) & 0x7F; break;
    case 4: id = any_identity(); s.add_device_identity(id); { Ref r; r.identity(id); for (uint32_t i = 0; i < r.n; ++i) b[n++] = r.b[i]; } break;
    case 5: for (auto& x : d) x = vf_u7(); { const uint32_t k = 1 + vf_choose(5); s.add_data(d, k); for (uint32_t i = 0; i < k; ++i) b[n++] = d[i]; } break;
    }
    raw(post);
    CHECKM(is(s, b, n), "appends exactly the documented bytes"); CHECK(s.manufacturerID == mf); CHECK(s.is_7bit()); CHECK(!s.is_8bit());
    switch (what)
    {
    case 0: CHECK(s.data[at] == v); break;
    case 1: CHECK(s.make_uint14(at) == v); break;
    case 2: CHECK(s.make_uint28(at) == v); break;
    case 3: CHECK(s.make_uint32(at) == v); break;
    case 4: CHECK(eq(s.make_device_identity(at), id)); break;
    }
}
template<typename S> static void whole()
{
    const uint32_t n = vf_choose(4), n2 = vf_choose(4); const uint32_t m = vf_u32(), m2 = vf_u32(); uint8_t b[4], c[4]; for (auto& x : b) x = vf_u8(); for (auto& x : c) x = vf_u8();
    S s = [&] { switch (vf_choose(4)) { case 0: return S(m, b, size_t(n)); case 1: { S x(m, size_t(8)); CHECK(x.data.empty() && x.data.capacity() >= 8); x.data.assign(b, b + n); return x; } case 2: { S x(m); CHECK(x.data.empty()); x.data.assign(b, b + n); return x; } default: { typename S::data_type d(b, b + n); return S(m, d); } } }();
    CHECK(s.manufacturerID == m); CHECK(is(s, b, n));
    CHECK(s.total_data_size() == n + (m == 0 ? 0 : (m & 0xFF0000) ? 1 : 3)); CHECK(s.empty() == (m == 0 && n == 0));
    bool hi = false; for (uint32_t i = 0; i < n; ++i) hi |= b[i] >= 0x80; CHECK(s.is_7bit() == !hi); CHECK(s.is_8bit() == hi);
    S t(m2, c, size_t(n2)); bool e = m == m2 && n == n2; if (n == n2) for (uint32_t i = 0; i < n; ++i) e &= b[i] == c[i];
    CHECK((s == t) == e); CHECK((s != t) == !e);
    const S u = s; CHECK(u == s && is(u, b, n)); t = s; CHECK(t == u);
    S w = std::move(s); CHECK(w == u);
    w.clear(); CHECK(w.manufacturerID == 0 && w.data.empty() && w.empty() && w.total_data_size() == 0);
}
ENTRY(whole7) { whole<sysex7>(); }
ENTRY(whole8) { whole<sysex8>(); }
ENTRY(valid)
{
    const uint32_t n = vf_choose(4); sysex7 s(vf_u32()); bool hi = false; for (uint32_t i = 0; i < n; ++i) { const uint8_t b = vf_u8(); s.data.push_back(b); hi |= b >= 0x80; }
    CHECK(s.is_valid() == (!hi && (s.manufacturerID & 0xFF808080) == 0));
    const sysex7 l(0x7E0000, { 1, 2, 3 }); const uint8_t e[] = { 1, 2, 3 }; CHECK(is(l, e, 3) && l.manufacturerID == 0x7E0000);
}
ENTRY(clear_large)
{
    sysex7 s(vf_u32()); s.data.resize(16380 + vf_choose(8) * 3); s.data[0] = vf_u7();
    s.clear(); CHECK(s.manufacturerID == 0 && s.data.empty()); s.add_uint14(vf_u14()); CHECK(s.data.size() == 2);
}
// long messages: equality, 7-bit check and fields far from the begin
template<typename S> static void far_away()
{
    static const uint32_t lens[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4096, 16383, 16384, 16385, 65535, 65536, 65537 };
    const uint32_t n = lens[vf_part(29)], w = vf_choose(3), pos = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
    S s(0x7D0000); s.data.reserve(n); for (uint32_t i = 0; i < n; ++i) s.data.push_back(vf_long_byte(i, n));
    CHECK(s.is_7bit() && !s.is_8bit()); CHECK(s.total_data_size() == n + 1);
    S t = s; CHECK(t == s && !(t != s)); const uint8_t x = vf_u8(); t.data[pos] = x; const bool e = s.data[pos] == x;
    CHECK((t == s) == e); CHECK((s != t) == !e); CHECK(t.is_7bit() == (x < 0x80)); CHECK(t.is_8bit() == (x >= 0x80));
    S u = s; u.data.push_back(0); CHECK(!(u == s) && s != u && !(s == u));
    if constexpr (sizeof(S) && std::is_same_v<S, sysex7>)
    {
        CHECK(t.is_valid() == (x < 0x80));
        const uint16_t a = vf_u14(); const uint32_t b = vf_u28(), c = vf_u32(); const device_identity id = any_identity();
        s.add_uint14(a); s.add_uint28(b); s.add_uint32(c); s.add_device_identity(id);
        CHECK(s.data.size() == n + 2 + 4 + 5 + 11); CHECK(s.make_uint14(n) == a && s.make_uint28(n + 2) == b && s.make_uint32(n + 6) == c && eq(s.make_device_identity(n + 11), id));
        CHECK(s.data[pos] == t.data[pos] || !e); CHECK(std::equal(u.data.begin(), u.data.begin() + n, s.data.begin()));
    }
}
ENTRY(far7) { far_away<sysex7>(); }
ENTRY(far8) { far_away<sysex8>(); }
