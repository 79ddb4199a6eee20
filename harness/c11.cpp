// C11: stream messages
#include "pk.h"
#include <midi/stream_message.h>
using namespace midi;
static void only(const universal_packet& p)
{
    const bool is = (p.data[0] >> 28) == 0xF; const uint8_t st = raw(p, 1);
    CHECK(is_stream_message(p) == is);
    CHECK(as_endpoint_discovery_view(p).has_value() == (is && st == 0x00)); CHECK(as_endpoint_info_view(p).has_value() == (is && st == 0x01)); CHECK(as_device_identity_view(p).has_value() == (is && st == 0x02));
    CHECK(as_endpoint_name_view(p).has_value() == (is && st == 0x03)); CHECK(as_product_instance_id_view(p).has_value() == (is && st == 0x04));
    CHECK(as_stream_configuration_view(p).has_value() == (is && (st == 0x05 || st == 0x06)));
    CHECK(as_function_block_discovery_view(p).has_value() == (is && st == 0x10)); CHECK(as_function_block_info_view(p).has_value() == (is && st == 0x11)); CHECK(as_function_block_name_view(p).has_value() == (is && st == 0x12));
}
static void obs(const universal_packet& m) { for (auto w : m.data) vf_observe(w); }
ENTRY(endpoint_discovery)
{
    const uint8_t f = vf_u8(), ma = vf_u8(), mi = vf_u8(); vf_assume(f < 32);
    const auto m = make_endpoint_discovery_message(f, ma, mi);
    CHECK(words(m, w0(15, 0, 0, ma, mi), f)); only(m);
    const auto v = as_endpoint_discovery_view(m); if (!v) return;
    CHECK(v->filter() == f); CHECK(v->ump_version_major() == ma); CHECK(v->ump_version_minor() == mi); CHECK(v->ump_version() == ma * 256u + mi);
    CHECK(v->requests_info() == bool(f & 1)); CHECK(v->requests_device_identity() == bool(f & 2)); CHECK(v->requests_name() == bool(f & 4)); CHECK(v->requests_product_instance_id() == bool(f & 8)); CHECK(v->requests_stream_configuration() == bool(f & 16));
    CHECK(words(make_endpoint_discovery_message(f), 0xF0000101u, f));
    obs(m);
}
ENTRY(endpoint_info)
{
    const uint8_t n = vf_u7(), pr = vf_u8(), ex = vf_u8(), ma = vf_u8(), mi = vf_u8(); const bool s = vf_bool(); vf_assume(pr < 4 && ex < 4);
    const auto m = make_endpoint_info_message(n, s, pr, ex, ma, mi);
    CHECK(words(m, w0(15, 0, 1, ma, mi), (uint32_t(n | (s ? 0x80 : 0)) << 24) | (pr << 8) | ex)); only(m);
    const auto v = as_endpoint_info_view(m); if (!v) return;
    CHECK(v->ump_version_major() == ma); CHECK(v->ump_version_minor() == mi); CHECK(v->ump_version() == ma * 256u + mi); CHECK(v->num_function_blocks() == n); CHECK(v->static_function_blocks() == s); CHECK(v->protocols() == pr); CHECK(v->extensions() == ex);
    CHECK(make_endpoint_info_message(n, s, pr, ex).data[0] == 0xF0010101u);
    obs(m);
}
ENTRY(identity)
{
    device_identity i; i.manufacturer = vf_u32() & 0x007F7F7F; i.family = vf_u14(); i.model = vf_u14(); i.revision = vf_u28();
    const auto m = make_device_identity_message(i);
    CHECK(words(m, 0xF0020000u, i.manufacturer, (uint32_t(i.family & 0x7F) << 24) | ((i.family >> 7) << 16) | ((i.model & 0x7F) << 8) | (i.model >> 7),
        ((i.revision & 0x7F) << 24) | (((i.revision >> 7) & 0x7F) << 16) | (((i.revision >> 14) & 0x7F) << 8) | (i.revision >> 21)));
    only(m);
    const auto v = as_device_identity_view(m); if (!v) return;
    const auto r = v->identity();
    CHECK(r.manufacturer == i.manufacturer); CHECK(r.family == i.family); CHECK(r.model == i.model); CHECK(r.revision == i.revision);
    obs(m);
}
ENTRY(stream_configuration)
{
    const uint8_t p = vf_u8(), e = vf_u8(); vf_assume(p >= 1 && p <= 2 && e < 4);
    const auto a = make_stream_configuration_request(p, e), b = make_stream_configuration_notification(p, e);
    CHECK(words(a, w0(15, 0, 5, p, e))); CHECK(words(b, w0(15, 0, 6, p, e))); only(a); only(b);
    CHECK(words(make_stream_configuration_request(p), w0(15, 0, 5, p, 0))); CHECK(words(make_stream_configuration_notification(p), w0(15, 0, 6, p, 0)));
    const auto v = as_stream_configuration_view(a), w = as_stream_configuration_view(b); if (!v || !w) return;
    CHECK(v->protocol() == p); CHECK(v->extensions() == e); CHECK(w->protocol() == p); CHECK(w->extensions() == e);
    obs(a);
}
ENTRY(function_block_discovery)
{
    const uint8_t fb = vf_u8(), f = vf_u4(), x = vf_u8(); vf_assume(fb == 0xFF || fb < 32);
    const auto m = make_function_block_discovery_message(fb, f);
    CHECK(words(m, w0(15, 0, 0x10, fb, f))); only(m);
    const auto v = as_function_block_discovery_view(m); if (!v) return;
    CHECK(v->function_block() == fb); CHECK(v->filter() == f); CHECK(v->requests_info() == bool(f & 1)); CHECK(v->requests_name() == bool(f & 2)); CHECK(v->requests_function_block(x) == (fb == 0xFF || fb == x));
    obs(m);
}
ENTRY(function_block_info)
{
    const uint8_t fb = vf_u8(), d = vf_u8(), g = vf_u4(), n = vf_u4(); vf_assume(fb < 32 && d >= 1 && d < 4);
    { const auto m = make_function_block_info_message(fb, d, g, n);
      CHECK(words(m, w0(15, 0, 0x11, 0x80 | fb, (d << 4) | d), (uint32_t(g) << 24) | (n << 16))); only(m);
      const auto v = as_function_block_info_view(m); if (!v) return;
      CHECK(v->active()); CHECK(v->function_block() == fb); CHECK(v->direction() == d); CHECK(v->ui_hint() == d); CHECK(v->midi1() == 0); CHECK(v->first_group() == g); CHECK(v->num_groups_spanned() == n); CHECK(v->ci_message_version() == 0); CHECK(v->max_num_sysex8_streams() == 0);
      CHECK(words(make_function_block_info_message(fb, d, g), w0(15, 0, 0x11, 0x80 | fb, (d << 4) | d), (uint32_t(g) << 24) | 0x10000u)); obs(m); }
    function_block_options o; o.active = vf_bool(); o.direction = d; o.midi1 = vf_u8(); o.ui_hint = vf_u8(); o.ci_message_version = vf_u8(); o.max_num_sysex8_streams = vf_u8();
    vf_assume(o.midi1 < 3 && o.ui_hint < 4 && (o.ui_hint == 0 || (o.ui_hint & d)));
    { const auto m = make_function_block_info_message(fb, o, g, n); const uint8_t h = o.ui_hint ? o.ui_hint : d;
      CHECK(words(m, w0(15, 0, 0x11, (o.active ? 0x80 : 0) | fb, (h << 4) | (o.midi1 << 2) | d), (uint32_t(g) << 24) | (n << 16) | (o.ci_message_version << 8) | o.max_num_sysex8_streams)); only(m);
      const auto v = as_function_block_info_view(m); if (!v) return;
      CHECK(v->active() == o.active); CHECK(v->function_block() == fb); CHECK(v->direction() == d); CHECK(v->ui_hint() == h); CHECK(v->midi1() == o.midi1); CHECK(v->first_group() == g); CHECK(v->num_groups_spanned() == n);
      CHECK(v->ci_message_version() == o.ci_message_version); CHECK(v->max_num_sysex8_streams() == o.max_num_sysex8_streams);
      CHECK(make_function_block_info_message(fb, o, g).data[1] == ((uint32_t(g) << 24) | 0x10000u | (o.ci_message_version << 8) | o.max_num_sysex8_streams)); obs(m); }
}
ENTRY(header)
{
    const uint8_t st = vf_u8(), f = vf_u8(), f2 = vf_u8(); vf_assume(f < 4 && f2 < 4);
    stream_message m{ st, packet_format(f) };
    CHECK(words(m, 0xF0000000u | (uint32_t(f) << 26) | (uint32_t(st) << 16))); CHECK(unsigned(m.format()) == f);
    m.data[1] = vf_u32(); m.data[2] = vf_u32(); m.set_byte(3, st); const auto o = m;
    m.set_format(packet_format(f2));
    CHECK(unsigned(m.format()) == f2); CHECK(m.data[0] == ((o.data[0] & 0xF3FFFFFFu) | (uint32_t(f2) << 26))); CHECK(m.data[1] == o.data[1] && m.data[2] == o.data[2] && m.data[3] == o.data[3]);
    CHECK(words(stream_message{}, 0xF0000000u)); CHECK(words(stream_message{ st }, 0xF0000000u | (uint32_t(st) << 16)));
    obs(m);
}
ENTRY(views)
{
    const auto p = any_packet(); only(p);
    if (auto v = as_endpoint_discovery_view(p)) { CHECK(v->filter() == (p.data[1] & 31)); CHECK(v->ump_version() == uint16_t(p.data[0])); CHECK(v->ump_version_major() == raw(p, 2)); CHECK(v->ump_version_minor() == raw(p, 3));
        const uint8_t f = uint8_t(p.data[1]); CHECK(v->requests_info() == bool(f & 1)); CHECK(v->requests_device_identity() == bool(f & 2)); CHECK(v->requests_name() == bool(f & 4)); CHECK(v->requests_product_instance_id() == bool(f & 8)); CHECK(v->requests_stream_configuration() == bool(f & 16)); }
    if (auto v = as_endpoint_info_view(p)) { CHECK(v->ump_version_major() == raw(p, 2)); CHECK(v->ump_version_minor() == raw(p, 3)); CHECK(v->num_function_blocks() == (raw(p, 4) & 0x7F)); CHECK(v->static_function_blocks() == (raw(p, 4) >= 0x80)); CHECK(v->protocols() == (raw(p, 6) & 3)); CHECK(v->extensions() == (raw(p, 7) & 3)); CHECK(v->ump_version() == uint16_t(p.data[0])); }
    if (auto v = as_stream_configuration_view(p)) { CHECK(v->protocol() == (raw(p, 2) & 3)); CHECK(v->extensions() == (raw(p, 3) & 3)); }
    if (auto v = as_function_block_discovery_view(p)) { CHECK(v->function_block() == raw(p, 2)); CHECK(v->filter() == (raw(p, 3) & 15)); const uint8_t x = vf_u8(); CHECK(v->requests_function_block(x) == (raw(p, 2) == 0xFF || raw(p, 2) == x)); CHECK(v->requests_info() == bool(raw(p, 3) & 1)); CHECK(v->requests_name() == bool(raw(p, 3) & 2)); }
    if (auto v = as_function_block_info_view(p)) { CHECK(v->active() == (raw(p, 2) >= 0x80)); CHECK(v->function_block() == (raw(p, 2) & 0x7F)); CHECK(v->direction() == (raw(p, 3) & 3)); CHECK(v->midi1() == ((raw(p, 3) >> 2) & 3)); CHECK(v->ui_hint() == ((raw(p, 3) >> 4) & 3)); CHECK(v->first_group() == raw(p, 4)); CHECK(v->num_groups_spanned() == raw(p, 5)); CHECK(v->ci_message_version() == raw(p, 6)); CHECK(v->max_num_sysex8_streams() == raw(p, 7)); }
    if (auto v = as_endpoint_name_view(p)) CHECK(unsigned(v->format()) == ((p.data[0] >> 26) & 3));
    if (auto v = as_product_instance_id_view(p)) CHECK(unsigned(v->format()) == ((p.data[0] >> 26) & 3));
    if (auto v = as_function_block_name_view(p)) { CHECK(unsigned(v->format()) == ((p.data[0] >> 26) & 3)); CHECK(v->function_block() == (raw(p, 2) & 0x7F)); }
    if (auto v = as_device_identity_view(p)) { const auto i = v->identity(); CHECK(i.manufacturer == (p.data[1] & 0x7F7F7F)); CHECK(i.family == (raw(p, 8) & 0x7Fu) + 128u * (raw(p, 9) & 0x7F)); CHECK(i.model == (raw(p, 10) & 0x7Fu) + 128u * (raw(p, 11) & 0x7F));
        CHECK(i.revision == (raw(p, 12) & 0x7Fu) + 128u * (raw(p, 13) & 0x7F) + 16384u * (raw(p, 14) & 0x7F) + 2097152u * (raw(p, 15) & 0x7F)); }
    vf_observe(is_stream_message(p));
}
