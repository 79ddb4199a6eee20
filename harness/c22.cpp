// C22: MIDI-CI profile configuration messages
#include "ci.h"
ENTRY(inquiry)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7();
    const auto m = ci::make_profile_inquiry_message(src, dst, dev); Ref r; r.head(0x20, src, dst, dev); same(m, r); CHECK(accepted(m) == (K_ci | K_prof_inq));
    auto v = ci::as<ci::profile_inquiry_view>(m); if (v) header_fields(*v, 0x20, src, dst, dev);
}
static void reply(uint32_t a, uint32_t b, bool vec)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7();
    std::vector<ci::profile_id> e, d; e.reserve(a); d.reserve(b); for (uint32_t i = 0; i < a; ++i) e.push_back(any_profile()); for (uint32_t i = 0; i < b; ++i) d.push_back(any_profile());
    const auto m = vec ? ci::make_profile_inquiry_reply(src, dst, e, d, dev) : ci::make_profile_inquiry_reply(src, dst, e.data(), uint14_t(a), d.data(), uint14_t(b), dev);
    Ref r; r.head(0x21, src, dst, dev); r.u14(a); for (auto& p : e) put(r, p); r.u14(b); for (auto& p : d) put(r, p); same(m, r); header_fields(m, 0x21, src, dst, dev);
    CHECK(accepted(m) == (K_ci | K_prof_rep));
    auto v = ci::as<ci::profile_inquiry_reply_view>(m); if (!v) return;
    header_fields(*v, 0x21, src, dst, dev);
    CHECK(v->has_enabled_profiles() == (a > 0)); CHECK(v->has_disabled_profiles() == (b > 0)); CHECK(v->num_enabled_profiles() == a); CHECK(v->num_disabled_profiles() == b);
    const auto x = v->enabled_profiles(), y = v->disabled_profiles(); CHECK(x.size() == a && y.size() == b); if (x.size() != a || y.size() != b) return;
    for (uint32_t i = 0; i < a; ++i) CHECK(eq(x[i], e[i])); for (uint32_t i = 0; i < b; ++i) CHECK(eq(y[i], d[i]));
    if (a && b) { CHECK((e[0] == d[0]) == eq(e[0], d[0])); }
}
ENTRY(inquiry_reply) { const uint32_t n = vf_param("P", 4), a = vf_choose(n), b = vf_choose(n); reply(a, b, vf_choose(2)); }
ENTRY(inquiry_reply_many) { static const uint32_t c[][2] = { { 127, 1 }, { 128, 2 }, { 1, 130 }, { 260, 0 } }; const auto& x = c[vf_choose(4)]; reply(x[0], x[1], vf_choose(2)); }
ENTRY(single)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const auto p = any_profile(); const uint8_t dev = vf_u7(); const uint16_t ch = vf_u14();
    const ci::profile_destination to{ dev, ch }; const uint32_t k = vf_choose(6);
    const uint8_t sub = uint8_t(0x22 + k);
    const ci::message m = k == 0 ? ci::make_profile_on_request(src, dst, p, to) : k == 1 ? ci::make_profile_off_request(src, dst, p, to) : k == 2 ? ci::make_profile_enabled_notification(src, dst, p, to) : k == 3 ? ci::make_profile_disabled_notification(src, dst, p, to)
                          : k == 4 ? ci::make_profile_added_notification(src, dst, p, dev) : ci::make_profile_removed_notification(src, dst, p, dev);
    Ref r; r.head(sub, src, dst, dev); put(r, p); if (k < 4) r.u14(k == 1 ? 0 : ch); same(m, r); header_fields(m, sub, src, dst, dev);
    CHECK(accepted(m) == (K_ci | K_prof_id | (k < 4 ? K_prof_dest : 0)));
    auto v = ci::as<ci::profile_id_view>(m); if (v) { header_fields(*v, sub, src, dst, dev); CHECK(eq(v->profile(), p)); }
    if (k < 4) { auto w = ci::as<ci::profile_destination_view>(m); if (w) { CHECK(eq(w->profile(), p)); CHECK(w->num_channels() == (k == 1 ? 0 : ch)); CHECK(w->params() == (ci::profile_destination{ dev, uint14_t(k == 1 ? 0 : ch) })); } }
}
ENTRY(details)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const auto p = any_profile(); const uint8_t dev = vf_u7(), t = vf_u7();
    if (vf_choose(2)) { const auto m = ci::make_profile_details_inquiry(src, dst, p, t, dev); Ref r; r.head(0x28, src, dst, dev); put(r, p); r.u7(t); same(m, r); CHECK(accepted(m) == (K_ci | K_det_inq)); auto v = ci::as<ci::profile_details_inquiry_view>(m); if (v) { header_fields(*v, 0x28, src, dst, dev); CHECK(eq(v->profile(), p)); CHECK(v->target() == t); } }
    else
    {
        Bytes d(any_length(vf_param("S", 10)));
        const auto m = ci::make_profile_details_reply(src, dst, p, t, d.p, d.n, dev); Ref r; r.head(0x29, src, dst, dev); put(r, p); r.u7(t); r.u14(d.n); r.bytes(d.p, d.n); same(m, r); CHECK(accepted(m) == (K_ci | K_det_rep));
        auto v = ci::as<ci::profile_details_reply_view>(m); if (!v) return;
        header_fields(*v, 0x29, src, dst, dev); CHECK(eq(v->profile(), p)); CHECK(v->target() == t); CHECK(v->target_data_length() == d.n); if (v->target_data_length() == d.n) CHECK(same_bytes(v->target_data(), d.p, d.n));
    }
}
ENTRY(specific_data)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const auto p = any_profile(); const uint8_t dev = vf_u7();
    Bytes d(any_length(vf_param("S", 10)));
    const auto m = vf_choose(2) ? ci::make_profile_specific_data_message(src, dst, p, d.p, d.n, dev) : ci::make_profile_specific_data_message(src, dst, p, std::vector<uint7_t>(d.p, d.p + d.n), dev);
    Ref r; r.head(0x2F, src, dst, dev); put(r, p); r.u28(d.n); r.bytes(d.p, d.n); same(m, r); CHECK(accepted(m) == (K_ci | K_psd));
    auto v = ci::as<ci::profile_specific_data_view>(m); if (!v) return;
    header_fields(*v, 0x2F, src, dst, dev); CHECK(eq(v->profile(), p)); CHECK(v->data_size() == d.n); CHECK(v->data_end() == v->data_begin() + d.n); if (v->data_size() == d.n) CHECK(same_bytes(v->data_begin(), d.p, d.n));
}
// sizes beyond 14, 16 and 21 bits
ENTRY(specific_data_large)
{
    static const uint32_t sizes[] = { 16384, 65536 + 3, 2097152 + 1 };
    const uint32_t n = sizes[vf_choose(vf_param("Z", 2))]; const auto p = any_profile(); const uint8_t first = vf_u7(), last = vf_u7();
    std::vector<uint7_t> d(n, 0); d[0] = first; d[n - 1] = last;
    const auto m = vf_choose(2) ? ci::make_profile_specific_data_message(1, 2, p, d) : ci::make_profile_specific_data_message(1, 2, p, d.data(), d.size());
    CHECK(m.data.size() == 21 + n); if (m.data.size() != 21 + n) return;
    auto v = ci::as<ci::profile_specific_data_view>(m); CHECK(v.has_value()); if (!v) return;
    CHECK(v->data_size() == n); if (v->data_size() != n) return;
    CHECK(v->data_begin()[0] == first && v->data_begin()[n - 1] == last); CHECK(eq(v->profile(), p));
}
// long data
ENTRY(details_long) { g_long = true; details(); }
ENTRY(specific_data_long) { g_long = true; specific_data(); }
