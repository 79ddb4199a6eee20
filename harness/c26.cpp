// C26: universal exclusive messages
#include "ci.h"
namespace us = universal_sysex;
static uint32_t any_manufacturer()
{
    const uint32_t m = vf_u32();
    vf_assume((m & 0xFF808080) == 0 && m != 0 && ((m & 0xFF0000) == 0 || (m & 0xFFFF) == 0));
    return m;
}
ENTRY(request)
{
    const uint8_t dev = vf_u7(), dev2 = vf_u7();
    us::message m = vf_choose(2) ? us::make_identity_request(dev) : us::message(us::identity_request(dev));
    Ref r; r.u7(dev); r.u7(6); r.u7(1); same(m, r);
    CHECK(m.device_id() == dev && m.type() == 0x7E06 && m.subtype() == 1); CHECK(us::is_identity_request(m)); CHECK(!us::is_identity_reply(m)); CHECK(!us::as_identity_reply_view(m)); CHECK(accepted(m) == 0);
    m.set_device_id(dev2); Ref q; q.u7(dev2); q.u7(6); q.u7(1); same(m, q);
}
ENTRY(reply)
{
    device_identity id; id.manufacturer = any_manufacturer(); id.family = vf_u14(); id.model = vf_u14(); id.revision = vf_u28();
    const uint32_t k = vf_choose(4); const uint8_t dev = k < 2 ? vf_u7() : 0x7F;
    const us::message m = k == 0 ? us::make_identity_reply(id.manufacturer, id.family, id.model, id.revision, dev) : k == 1 ? us::message(us::identity_reply(id.manufacturer, id.family, id.model, id.revision, dev)) : k == 2 ? us::make_identity_reply(id) : us::message(us::identity_reply(id));
    Ref r; r.u7(dev); r.u7(6); r.u7(2); if (id.manufacturer & 0xFF0000) r.u7(id.manufacturer >> 16); else { r.u7(0); r.u7(id.manufacturer >> 8); r.u7(id.manufacturer & 0x7F); } r.u14(id.family); r.u14(id.model); r.u28(id.revision);
    same(m, r);
    CHECK(m.device_id() == dev && m.type() == 0x7E06 && m.subtype() == 2); CHECK(us::is_identity_reply(m)); CHECK(!us::is_identity_request(m)); CHECK(accepted(m) == 0);
    auto v = us::as_identity_reply_view(m); CHECK(v.has_value()); if (!v) return;
    CHECK(eq(v->identity(), id)); CHECK(v->device_id() == dev && v->type() == 0x7E06 && v->subtype() == 2 && v->data_size() == r.n);
    auto u = as_universal_sysex_view(m); CHECK(u.has_value()); if (u) { auto w = u->as<us::identity_reply_view>(); CHECK(w.has_value()); if (w) CHECK(eq(w->identity(), id)); }
}
ENTRY(any_content)
{
    static const uint32_t more[] = { 64, 127, 128, 129, 255, 256, 257, 268, 270, 300 }; const uint32_t L = vf_param("L", 20), l = vf_part(L + 10), n = l < L ? l : more[l - L]; us::message s; const uint32_t mf = vf_u32(); s.manufacturerID = mf;
    { std::vector<uint8_t> d(n); for (auto& b : d) b = vf_u8(); s.data.assign(d.begin(), d.end()); }
    const bool uni = (mf == 0x7E0000 || mf == 0x7F0000) && n >= 2;
    const uint32_t type = uni ? (mf >> 8) | s.data[1] : 0, sub = n > 2 ? s.data[2] : 0;
    CHECK(is_universal_sysex_message(s) == uni); CHECK(universal_sysex_type_of(s) == type); CHECK(universal_sysex_subtype_of(s) == (uni ? sub : 0)); CHECK(universal_sysex_device_id_of(s) == (uni ? s.data[0] : 0xFF));
    auto v = as_universal_sysex_view(s); CHECK(v.has_value() == uni);
    if (v && uni) { CHECK(v->device_id() == s.data[0]); CHECK(v->type() == type); CHECK(v->subtype() == sub); CHECK(v->data_size() == n); }
    CHECK(s.device_id() == (n ? s.data[0] : 0xFF)); CHECK(s.subtype() == sub); if (n < 2) CHECK(s.type() == 0); else if (uni) CHECK(s.type() == type);
    const bool gi = uni && type == 0x7E06;
    CHECK(us::is_identity_request(s) == (gi && n > 2 && sub == 1));
    const bool rep = gi && n > 2 && sub == 2 && ((n == 12 && s.data[3] != 0) || n == 14);
    CHECK(us::is_identity_reply(s) == rep);
    auto w = us::as_identity_reply_view(s); CHECK(w.has_value() == rep);
    if (w && rep) { const auto id = w->identity(); const uint32_t o = s.data[3] ? 4 : 6; CHECK(id.manufacturer == (s.data[3] ? uint32_t(s.data[3]) << 16 : (uint32_t(s.data[4]) << 8) | s.data[5])); auto u14 = [&](uint32_t i) { return s.data[i] | (uint32_t(s.data[i + 1]) << 7); }; CHECK(id.family == u14(o)); CHECK(id.model == u14(o + 2)); CHECK(id.revision == (u14(o + 4) | (u14(o + 6) << 14))); }
    if (v && uni) CHECK(v->as<us::identity_reply_view>().has_value() == rep);
}
