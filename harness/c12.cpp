// C12: names split into packets and reassembled
#include "pk.h"
#include <midi/stream_message.h>
#include <vector>
using namespace midi;
static bool g_long = false; // long names: some bytes symbolic
struct text { char* t; uint32_t n; text(uint32_t k, bool ascii) : t(new char[k]), n(k) { for (uint32_t i = 0; i < n; ++i) { if (g_long && i >= 15 && i + 8 < n && i % 509) { t[i] = char(1 + (i * 7 + i / 128) % 255); continue; } t[i] = char(vf_u8()); vf_assume(t[i] != 0); if (ascii) vf_assume(uint8_t(t[i]) < 0x80); } } ~text() { delete[] t; } std::string_view sv() const { return { t, n }; } };
// one packet of a split text: bytes at `off`, capacity `cap`, header bytes (status, block)
template<class View>
static void packet(const universal_packet& p, const View& v, uint32_t k, const text& t, unsigned cap, unsigned hdr, uint8_t status, int block, std::string& joined)
{
    const uint32_t total = t.n <= cap ? 1 : (t.n + cap - 1) / cap;
    CHECK(k < total); if (k >= total) return;
    const unsigned f = total == 1 ? 0 : k == 0 ? 1 : k == total - 1 ? 3 : 2;
    CHECK((p.data[0] >> 28) == 15); CHECK(raw(p, 1) == status); CHECK(((p.data[0] >> 24) & 3) == 0);
    CHECK(((p.data[0] >> 26) & 3) == f); CHECK(unsigned(v.format()) == f);
    if (block >= 0) CHECK(raw(p, 2) == block);
    for (unsigned i = 0; i < cap; ++i) { const uint32_t j = k * cap + i; CHECK(raw(p, hdr + i) == (j < t.n ? uint8_t(t.t[j]) : 0)); }
    const std::string s = v.payload();
    const uint32_t e = k == total - 1 ? t.n - k * cap : cap;
    CHECK(s.size() == e);
    joined += s;
    for (auto w : p.data) vf_observe(w);
}
static void finish(const text& t, uint32_t k, unsigned cap, const std::string& joined)
{
    CHECK(k == (t.n <= cap ? 1 : (t.n + cap - 1) / cap));
    CHECK(joined.size() == t.n);
    for (uint32_t i = 0; i < t.n && i < joined.size(); ++i) CHECK(joined[i] == t.t[i]);
}
static void do_endpoint_name(uint32_t n)
{
    const text t(n, false); uint32_t k = 0; std::string j;
    send_endpoint_name(t.sv(), [&](const universal_packet& p) { auto v = as_endpoint_name_view(p); CHECK(v.has_value()); if (v) packet(p, *v, k, t, 14, 2, 0x03, -1, j); ++k; });
    finish(t, k, 14, j);
}
ENTRY(product_instance_id)
{
    const text t(vf_choose(17), true); uint32_t k = 0; std::string j;
    send_product_instance_id(t.sv(), [&](const universal_packet& p) { auto v = as_product_instance_id_view(p); CHECK(v.has_value()); if (v) packet(p, *v, k, t, 14, 2, 0x04, -1, j); ++k; });
    finish(t, k, 14, j);
}
static void do_function_block_name(uint32_t n)
{
    const uint8_t fb = vf_u7();
    const text t(n, false); uint32_t k = 0; std::string j;
    send_function_block_name(fb, t.sv(), [&](const universal_packet& p) { auto v = as_function_block_name_view(p); CHECK(v.has_value()); if (v) { packet(p, *v, k, t, 13, 3, 0x12, fb, j); CHECK(v->function_block() == fb); } ++k; });
    finish(t, k, 13, j);
}
ENTRY(endpoint_name) { do_endpoint_name(vf_part(vf_param("N", 46) + 1)); }
ENTRY(function_block_name) { do_function_block_name(vf_part(vf_param("N", 46) + 1)); }
static uint32_t long_name() { g_long = true; const uint32_t n = vf_long_length(vf_part(vf_long_lengths)); return vf_choose(2) ? n + 20 : n; }
ENTRY(endpoint_name_long) { do_endpoint_name(long_name()); }
ENTRY(function_block_name_long) { do_function_block_name(long_name()); }
// single packets
ENTRY(single)
{
    const unsigned kind = vf_choose(3); const text t(vf_choose(kind == 2 ? 14 : 15), kind == 1); const uint8_t f = vf_u8(), fb = vf_u7(); vf_assume(f < 4 && (kind != 1 || f != 2));
    universal_packet m; unsigned hdr = 2;
    if (kind == 0) m = make_endpoint_name_message(packet_format(f), t.sv());
    else if (kind == 1) m = make_product_instance_id_message(packet_format(f), t.sv());
    else { m = make_function_block_name_message(packet_format(f), fb, t.sv()); hdr = 3; }
    const uint8_t st[3] = { 3, 4, 0x12 };
    CHECK(raw(m, 0) == (0xF0 | (f << 2))); CHECK(raw(m, 1) == st[kind]); if (kind == 2) CHECK(raw(m, 2) == fb);
    for (unsigned i = hdr; i < 16; ++i) CHECK(raw(m, i) == (i - hdr < t.n ? uint8_t(t.t[i - hdr]) : 0));
    vf_observe(m.data[0]); vf_observe(m.data[3]);
}
// reading a name from an arbitrary packet: the bytes up to the first NUL, never beyond the packet
ENTRY(any_name)
{
    const unsigned kind = vf_choose(3); const auto p = any_packet_of_type(15); const unsigned hdr = kind == 2 ? 3 : 2;
    std::string s;
    if (kind == 0) { auto v = as_endpoint_name_view(p); if (!v) return; s = v->payload(); }
    if (kind == 1) { for (unsigned i = 2; i < 16; ++i) vf_assume(raw(p, i) < 0x80); auto v = as_product_instance_id_view(p); if (!v) return; s = v->payload(); }
    if (kind == 2) { auto v = as_function_block_name_view(p); if (!v) return; s = v->payload(); }
    CHECK(s.size() <= 16 - hdr);
    for (unsigned i = 0; i < 16 - hdr; ++i) { if (i < s.size()) { CHECK(raw(p, hdr + i) != 0); CHECK(uint8_t(s[i]) == raw(p, hdr + i)); } else if (i == s.size()) CHECK(raw(p, hdr + i) == 0); }
    vf_observe(s.size());
}
