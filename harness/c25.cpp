// C25: property exchange headers
#include "rjson_ref.h"
using namespace ci::property_exchange;
ENTRY(key_text)
{
    Text k(vf_choose(vf_param("T", 6))); Text v(vf_choose(vf_param("T", 6)));
    const auto s = make_rjson(k.view(), v.view());
    Json j; j.c('{'); j.quoted(k); j.c(':'); j.quoted(v); j.c('}'); CHECKM(eq(s, j), "one key, quoted value");
    const auto e = make_rjson(k.view(), v.view(), {}); CHECKM(eq(e, j), "no options");
}
ENTRY(options)
{
    const uint32_t O = vf_param("O", 3);
    Text k(vf_part(3)); Text v(vf_choose(2) * 3);
    Text a(vf_choose(3)), av(vf_choose(O + 2)), b(vf_choose(2)), bv(vf_choose(O));
    const uint32_t n = vf_choose(3);
    header_options o; if (n > 0) o.push_back({ a.view(), av.view() }); if (n > 1) o.push_back({ b.view(), bv.view() });
    const auto s = make_rjson(k.view(), v.view(), o);
    Json j; j.c('{'); j.quoted(k); j.c(':'); j.quoted(v); if (n > 0) { j.c(','); j.quoted(a); j.c(':'); j.value(av); } if (n > 1) { j.c(','); j.quoted(b); j.c(':'); j.value(bv); } j.c('}');
    CHECKM(eq(s, j), "every option once, numbers unquoted, other values quoted");
}
// numbers and almost numbers of any length up to V
ENTRY(option_values)
{
    Text v(vf_part(vf_param("V", 8)));
    const auto s = make_rjson("id", "", { { "offset", v.view() } });
    Json j; j.s("{\"id\":\"\",\"offset\":"); j.value(v); j.c('}'); CHECKM(eq(s, j), "numbers unquoted, other values quoted");
    const auto t = make_rjson("status", 200, { { "message", v.view() } });
    Json i; i.s("{\"status\":200,\"message\":"); i.value(v); i.c('}'); CHECKM(eq(t, i), "numbers unquoted, other values quoted");
}
ENTRY(key_int)
{
    static const int32_t lo[] = { 0, 10, 100, 1000, 10000, -9, -99, -999, -9999, INT32_MIN, INT32_MAX - 5, 100000, 99999995, 999999995 };
    static const int32_t hi[] = { 9, 99, 999, 9999, 19999, -1, -10, -100, -1000, INT32_MIN + 5, INT32_MAX, 100099, 100000005, 1000000005 };
    const uint32_t r = vf_part(14);
    const int32_t v = int32_t(vf_u32()); vf_assume(v >= lo[r] && v <= hi[r]);
    Text k(vf_choose(2) * 2);
    const bool opt = vf_choose(2); Text m(opt ? vf_choose(3) : 0);
    const auto s = opt ? make_rjson(k.view(), v, { { "message", m.view() } }) : make_rjson(k.view(), v);
    Json j; j.c('{'); j.quoted(k); j.c(':');
    CHECK(s.size() > j.n && eq(std::string_view(s).substr(0, j.n), j)); if (s.size() <= j.n) return;
    int64_t x; bool ok; const uint32_t e = read_int(s, j.n, x, ok); CHECKM(ok, "well formed number"); CHECKM(x == v, "value");
    Json t; if (opt) { t.s(",\"message\":"); t.value(m); } t.c('}'); CHECKM(eq(std::string_view(s).substr(e), t), "rest of the header");
}
// long values: digits with one arbitrary character at any of a few places
ENTRY(long_values)
{
    static const uint16_t len[] = { 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 24, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257 };
    const uint32_t n = len[vf_part(29)]; const uint32_t w = vf_choose(6);
    Text v(n, w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? n - 2 : w == 4 ? n - 1 : n);
    const auto s = make_rjson("id", "", { { "offset", v.view() } });
    Json j; j.s("{\"id\":\"\",\"offset\":"); j.value(v); j.c('}'); CHECKM(eq(s, j), "numbers unquoted, other values quoted");
    const auto t = make_rjson("status", 200, { { "message", v.view() } });
    Json i; i.s("{\"status\":200,\"message\":"); i.value(v); i.c('}'); CHECKM(eq(t, i), "numbers unquoted, other values quoted");
    const auto u = make_rjson(v.view(), v.view(), {});
    Json k; k.c('{'); k.quoted(v); k.c(':'); k.quoted(v); k.c('}'); CHECKM(eq(u, k), "one key, quoted value");
}
// up to eight options, the last one free
ENTRY(many_options)
{
    const uint32_t n = vf_part(9); Text a(vf_choose(3)), d(2, 2), f(1), g(0);
    header_options o; static const char* key[] = { "a", "bc", "", "def", "g", "h1", "key", "z" };
    for (uint32_t i = 0; i < n; ++i) o.push_back({ key[i], i + 1 == n ? a.view() : i % 3 == 0 ? d.view() : i % 3 == 1 ? f.view() : g.view() });
    const bool num = vf_choose(2);
    const auto s = num ? make_rjson("status", 341, o) : make_rjson("resource", "X", o);
    Json j; j.s(num ? "{\"status\":341" : "{\"resource\":\"X\"");
    for (uint32_t i = 0; i < n; ++i) { j.s(",\""); j.s(key[i]); j.s("\":"); j.value(i + 1 == n ? a : i % 3 == 0 ? d : i % 3 == 1 ? f : g); }
    j.c('}'); CHECKM(eq(s, j), "every option once, in order");
}
