// C21: MIDI-CI management messages
#include "ci.h"
ENTRY(discovery)
{
    const uint32_t src = vf_u28(), dst = vf_u28(), max = vf_u28(); const auto id = any_identity(); const uint8_t cat = vf_u7(), path = vf_u7(), fb = vf_u7();
    const uint32_t k = vf_choose(4); const bool reply = k & 1, v1 = k & 2;
    const ci::message m = v1 ? (reply ? ci::make_discovery_reply_v1(src, dst, id, cat, max) : ci::make_discovery_inquiry_v1(src, id, cat, max))
                             : (reply ? ci::make_discovery_reply(src, dst, id, cat, max, path, fb) : ci::make_discovery_inquiry(src, id, cat, max, path));
    Ref r; const uint32_t to = reply ? dst : 0x0FFFFFFF, ver = v1 ? 1 : 2;
    r.head(reply ? 0x71 : 0x70, src, to, 0x7F, ver); r.identity(id); r.u7(cat); r.u28(max); if (!v1) { r.u7(path); if (reply) r.u7(fb); }
    same(m, r); header_fields(m, reply ? 0x71 : 0x70, src, to, 0x7F, ver);
    CHECKM(accepted(m) == (K_ci | (reply ? K_disc_rep : K_disc_inq)), "accepted by its own view only");
    auto fields = [&](const auto& v) { header_fields(v, reply ? 0x71 : 0x70, src, to, 0x7F, ver); CHECK(eq(v.identity(), id)); CHECK(v.categories() == cat); CHECK(v.maximum_message_size() == max); CHECK(v.output_path_id() == (v1 ? 0 : path)); };
    if (reply) { auto v = ci::as<ci::discovery_reply_view>(m); if (v) { fields(*v); CHECK(v->function_block() == (v1 ? 0x7F : fb)); } }
    else { auto v = ci::as<ci::discovery_inquiry_view>(m); if (v) fields(*v); }
}
ENTRY(endpoint_information)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t st = vf_u7();
    if (vf_choose(2)) { const auto m = ci::make_endpoint_information_inquiry(src, dst, st); Ref r; r.head(0x72, src, dst, 0x7F); r.u7(st); same(m, r); header_fields(m, 0x72, src, dst, 0x7F); CHECK(accepted(m) == (K_ci | K_ep_inq)); auto v = ci::as<ci::endpoint_information_inquiry_view>(m); if (v) { header_fields(*v, 0x72, src, dst, 0x7F); CHECK(v->status() == st); } }
    else
    {
        Bytes d(any_length(vf_param("S", 10)));
        const auto m = ci::make_endpoint_information_reply(src, dst, st, d.p, d.n); Ref r; r.head(0x73, src, dst, 0x7F); r.u7(st); r.u14(d.n); r.bytes(d.p, d.n); same(m, r);
        header_fields(m, 0x73, src, dst, 0x7F); CHECK(accepted(m) == (K_ci | K_ep_rep));
        auto v = ci::as<ci::endpoint_information_reply_view>(m); if (!v) return;
        header_fields(*v, 0x73, src, dst, 0x7F); CHECK(v->status() == st); CHECK(v->information_data_length() == d.n); if (v->information_data_length() == d.n) CHECK(same_bytes(v->information_data(), d.p, d.n));
    }
}
ENTRY(acknowledge)
{
    uint32_t src = vf_u28(), dst = vf_u28(); uint8_t dev = vf_u7(), tr = vf_u7(), sc = vf_u7(), sd = vf_u7(); uint8_t det[5]; for (auto& b : det) b = vf_u7();
    Bytes t(any_length(vf_param("S", 10)));
    auto check = [&](const ci::message& m, uint8_t sub) {
        Ref r; r.head(sub, src, dst, dev); r.u7(tr); r.u7(sc); r.u7(sd); r.bytes(det, 5); r.u14(t.n); r.bytes(t.p, t.n); same(m, r); header_fields(m, sub, src, dst, dev);
        CHECK(accepted(m) == (K_ci | (sub == 0x7D ? K_ack : K_nak)));
        auto fields = [&](const ci::nack::view& v) {
            header_fields(v, sub, src, dst, dev); CHECK(v.transaction() == tr); CHECK(v.status_code() == sc); CHECK(v.status_data() == sd); CHECK(same_bytes(v.details(), det, 5));
            CHECK(v.message_length() == t.n); CHECK(v.message().size() == t.n); if (v.message().size() == t.n) { CHECK(same_bytes(v.message_data(), t.p, t.n)); CHECK(same_bytes(reinterpret_cast<const uint8_t*>(v.message().data()), t.p, t.n)); }
        };
        if (sub == 0x7D) { auto v = ci::as<ci::ack_view>(m); if (v) fields(*v); } else { auto v = ci::as<ci::nak_view>(m); if (v) fields(*v); }
    };
    switch (vf_choose(5))
    {
    case 0: check(ci::make_ack_message(src, dst, dev, tr, sc, sd, det, t.text()), 0x7D); break;
    case 1: check(ci::make_nak_message(src, dst, dev, tr, sc, sd, det, t.text()), 0x7F); break;
    case 2: { // reply to a received message: addresses swapped, its sub id as transaction
        const ci::message in(tr, dst, src, dev); capability_inquiry_view v(in); check(ci::make_nak_message(v, sc, sd, det, t.text()), 0x7F); break; }
    case 3: { const auto m = ci::make_nak_message_v1(src, dst, dev); Ref r; r.head(0x7F, src, dst, dev, 1); same(m, r); CHECK(accepted(m) == K_ci); break; }
    case 4: { const ci::message in(tr, dst, src, dev); capability_inquiry_view v(in); const auto m = ci::make_nak_message_v1(v); Ref r; r.head(0x7F, src, dst, dev, 1); same(m, r); CHECK(accepted(m) == K_ci); break; }
    }
}
ENTRY(invalidate)
{
    const uint32_t src = vf_u28(), t = vf_u28();
    const auto m = ci::make_invalidate_muid_message(src, t); Ref r; r.head(0x7E, src, 0x0FFFFFFF, 0x7F); r.u28(t); same(m, r); header_fields(m, 0x7E, src, 0x0FFFFFFF, 0x7F);
    CHECK(accepted(m) == (K_ci | K_inval)); auto v = ci::as<ci::invalidate_muid_view>(m); if (v) { header_fields(*v, 0x7E, src, 0x0FFFFFFF, 0x7F); CHECK(v->target_muid() == t); }
}
ENTRY(addressing)
{
    // plain messages of any sub id, payload reservation, and changing the addresses afterwards
    const uint32_t src = vf_u28(), dst = vf_u28(), s2 = vf_u28(), d2 = vf_u28(); const uint8_t sub = vf_u7(), dev = vf_u7(), dev2 = vf_u7();
    const uint32_t extra = vf_choose(3);
    ci::message m = vf_choose(2) ? ci::message(sub, src, dst, dev) : ci::message::make_with_payload_size(extra, sub, src, dst, dev);
    { Ref r; r.head(sub, src, dst, dev); same(m, r); header_fields(m, sub, src, dst, dev); }
    auto v = as_capability_inquiry_view(m); CHECK(v.has_value()); if (v) header_fields(*v, sub, src, dst, dev);
    CHECK(is_capability_inquiry_message(m));
    switch (vf_choose(3))
    {
    case 0: { m.set_source_muid(s2); Ref r; r.head(sub, s2, dst, dev); same(m, r); header_fields(m, sub, s2, dst, dev); break; }
    case 1: { m.set_destination_muid(d2); Ref r; r.head(sub, src, d2, dev); same(m, r); header_fields(m, sub, src, d2, dev); break; }
    case 2: { m.set_device_id(dev2); Ref r; r.head(sub, src, dst, dev2); same(m, r); header_fields(m, sub, src, dst, dev2); break; }
    }
}
// long texts and data
ENTRY(endpoint_information_long) { g_long = true; endpoint_information(); }
ENTRY(acknowledge_long) { g_long = true; acknowledge(); }
