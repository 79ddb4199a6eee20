// C20: MIDI-CI views on arbitrary content
#include "ci.h"
static sysex7 any_message(uint32_t n)
{
    sysex7 s; const uint32_t m = vf_u32(); s.manufacturerID = m;
    std::vector<uint8_t> d(n); // exact capacity
    for (auto& b : d) b = vf_u8();
    s.data.assign(d.begin(), d.end());
    return s;
}
struct In
{
    uint32_t n; bool ok, sub_ok; const sysex7& s;
    uint8_t at(uint32_t i) const { return s.data[i]; }
    uint32_t u14(uint32_t i) const { return s.data[i] | (uint32_t(s.data[i + 1]) << 7); }
    uint32_t u28(uint32_t i) const { return u14(i) | (u14(i + 2) << 14); }
    // message of the given subtypes with at least `need` bytes
    bool is(uint32_t need, uint8_t lo, uint8_t hi) const { return ok && n >= need && n > 2 && at(2) >= lo && at(2) <= hi; }
};
template<typename V> static void base(const V& v, const In& i)
{
    CHECK(v.device_id() == i.at(0)); CHECK(v.subtype() == i.at(2)); CHECK(v.message_version() == i.at(3));
    CHECK(v.source_muid() == i.u28(4)); CHECK(v.destination_muid() == i.u28(8));
}
static void inside(const In& i, const uint8_t* p, uint32_t off, uint64_t len, const char*)
{
    CHECKM(p == i.s.data.data() + off, "data pointer"); CHECKM(off + len <= i.n, "data within the message");
}
template<typename V, typename F> static void with(const In& i, bool want, F f)
{
    auto v = ci::as<V>(i.s);
    CHECKM(v.has_value() == want, "accepted exactly when the kind matches and all fields are present");
    CHECKM(V::validate(i.s) == want, "validate agrees");
    if (v && want) { base(*v, i); f(*v); }
}
static void profile_of(const In& i, const ci::profile_id& p) { for (uint32_t k = 0; k < 5; ++k) CHECK((&p.byte1)[k] == i.at(12 + k)); }
static void management(const In& i)
{
    with<capability_inquiry_view>(i, i.ok && i.n >= 12, [&](auto&) {});
    CHECK(is_capability_inquiry_message(i.s) == (i.ok && i.n >= 12));
    CHECK(as_capability_inquiry_view(i.s).has_value() == (i.ok && i.n >= 12));
    auto disc = [&](const ci::discovery::message_view& v) {
        auto d = v.identity(); CHECK(d.manufacturer == ((uint32_t(i.at(12)) << 16) | (uint32_t(i.at(13)) << 8) | i.at(14))); CHECK(d.revision == i.u28(19)); CHECK(v.categories() == i.at(23)); CHECK(v.maximum_message_size() == i.u28(24));
        CHECK(v.output_path_id() == (i.at(3) >= 2 ? i.at(28) : 0));
    };
    with<ci::discovery_inquiry_view>(i, i.is(28, 0x70, 0x70) && (i.at(3) < 2 || i.n >= 29), disc);
    with<ci::discovery_reply_view>(i, i.is(28, 0x71, 0x71) && (i.at(3) < 2 || i.n >= 30), [&](auto& v) { disc(v); CHECK(v.function_block() == (i.at(3) >= 2 ? i.at(29) : 0x7F)); });
    with<ci::endpoint_information_inquiry_view>(i, i.is(13, 0x72, 0x72), [&](auto& v) { CHECK(v.status() == i.at(12)); });
    with<ci::endpoint_information_reply_view>(i, i.is(15, 0x73, 0x73) && i.n >= 15 + i.u14(13), [&](auto& v) { CHECK(v.status() == i.at(12)); CHECK(v.information_data_length() == uint16_t(i.u14(13))); inside(i, v.information_data(), 15, v.information_data_length(), ""); });
    auto nack = [&](const ci::nack::view& v) {
        CHECK(v.transaction() == i.at(12)); CHECK(v.status_code() == i.at(13)); CHECK(v.status_data() == i.at(14)); inside(i, v.details(), 15, 5, "");
        CHECK(v.message_length() == i.u14(20)); inside(i, v.message_data(), 22, v.message_length(), ""); CHECK(v.message().size() == i.u14(20)); inside(i, reinterpret_cast<const uint8_t*>(v.message().data()), 22, v.message().size(), "");
    };
    with<ci::ack_view>(i, i.is(22, 0x7D, 0x7D) && i.n >= 22 + i.u14(20), nack);
    with<ci::nak_view>(i, i.is(22, 0x7F, 0x7F) && i.n >= 22 + i.u14(20) && i.at(3) >= 2, nack);
    with<ci::invalidate_muid_view>(i, i.is(16, 0x7E, 0x7E), [&](auto& v) { CHECK(v.target_muid() == i.u28(12)); });
}
// large messages: a length or count at a few places around what fits, or anything that does not fit
static bool near(uint32_t v, uint32_t fit) { const uint32_t k = vf_choose(6); if (k == 5) vf_assume(v > fit + 1); else vf_assume(v == (k == 0 ? 0u : k == 1 ? 2u : fit + k - 3)); return k != 5; }
static void profiles(const In& i)
{
    if (g_long && near(i.u14(12), (i.n - 16) / 5)) { const uint32_t p = 14 + 5 * uint32_t(vf_concretize(i.u14(12))); if (p + 2 <= i.n) near(i.u14(p), (i.n - p - 2) / 5); }
    with<ci::profile_inquiry_view>(i, i.is(12, 0x20, 0x20), [&](auto&) {});
    bool rep = i.is(16, 0x21, 0x21);
    if (rep) { const uint32_t e = i.u14(12); rep = i.n >= 16 + 5 * e; if (rep) { const uint32_t p = uint32_t(vf_concretize(14 + 5 * e)); rep = i.n >= p + 2 + 5 * i.u14(p); } }
    with<ci::profile_inquiry_reply_view>(i, rep, [&](auto& v) {
        const uint32_t e = uint32_t(vf_concretize(i.u14(12))), p = 14 + 5 * e, d = uint32_t(vf_concretize(i.u14(p)));
        CHECK(v.num_enabled_profiles() == e); CHECK(v.num_disabled_profiles() == d); 
        const auto a = v.enabled_profiles(), b = v.disabled_profiles(); CHECK(a.size() == e && b.size() == d); if (a.size() != e || b.size() != d) return;
        for (uint32_t k = 0; k < e; ++k) for (uint32_t j = 0; j < 5; ++j) CHECK((&a[k].byte1)[j] == i.at(14 + 5 * k + j));
        for (uint32_t k = 0; k < d; ++k) for (uint32_t j = 0; j < 5; ++j) CHECK((&b[k].byte1)[j] == i.at(p + 2 + 5 * k + j));
        if (i.at(12) < 128 && i.at(13) < 128) CHECK(v.has_enabled_profiles() == (e != 0));
        if (i.at(p) < 128 && i.at(p + 1) < 128) CHECK(v.has_disabled_profiles() == (d != 0));
    });
    with<ci::profile_id_view>(i, i.is(17, 0x22, 0x27), [&](auto& v) { profile_of(i, v.profile()); });
    with<ci::profile_destination_view>(i, i.is(19, 0x22, 0x25), [&](auto& v) { profile_of(i, v.profile()); CHECK(v.num_channels() == i.u14(17)); CHECK(v.params().scope == i.at(0) && v.params().num_channels == i.u14(17)); });
    with<ci::profile_details_inquiry_view>(i, i.is(18, 0x28, 0x28), [&](auto& v) { profile_of(i, v.profile()); CHECK(v.target() == i.at(17)); });
    with<ci::profile_details_reply_view>(i, i.is(20, 0x29, 0x29) && i.n >= 20 + i.u14(18), [&](auto& v) { profile_of(i, v.profile()); CHECK(v.target() == i.at(17)); CHECK(v.target_data_length() == i.u14(18)); inside(i, v.target_data(), 20, v.target_data_length(), ""); });
    with<ci::profile_specific_data_view>(i, i.is(21, 0x2F, 0x2F) && i.n >= uint64_t(21) + i.u28(17), [&](auto& v) { profile_of(i, v.profile()); CHECK(v.data_size() == i.u28(17)); inside(i, v.data_begin(), 21, v.data_size(), ""); CHECK(v.data_end() == v.data_begin() + v.data_size()); });
}
static void properties(const In& i)
{
    with<ci::property_exchange_capabilities_view>(i, i.is(13, 0x30, 0x31) && (i.at(3) < 2 || i.n >= 15), [&](auto& v) { CHECK(v.maximum_number_of_requests() == i.at(12)); CHECK(v.pe_version_major() == (i.at(3) >= 2 ? i.at(13) : 0)); CHECK(v.pe_version_minor() == (i.at(3) >= 2 ? i.at(14) : 0)); });
    if (g_long) { near(i.u14(13), i.n - 21); }
    bool pe = i.is(21, 0x34, 0x39) || i.is(21, 0x3F, 0x3F); uint32_t h = 0;
    if (pe) { h = i.u14(13); pe = i.n >= 21 + h; }
    if (pe) { h = uint32_t(vf_concretize(h)); const uint32_t num = i.u14(15 + h), cur = i.u14(17 + h), len = i.u14(19 + h); pe = !(num && cur > num) && !(h && cur > 1) && !(len && cur < 1) && i.n >= 21 + h + len; }
    auto data = [&](const ci::property_exchange::property_data_message_view& v) {
        CHECK(v.request_id() == i.at(12)); CHECK(v.header_size() == h); inside(i, v.header_begin(), 15, v.header_size(), ""); CHECK(v.header_end() == v.header_begin() + h);
        CHECK(v.number_of_chunks() == i.u14(15 + h)); CHECK(v.number_of_this_chunk() == i.u14(17 + h)); CHECK(v.chunk_size() == i.u14(19 + h));
        inside(i, v.chunk_begin(), 21 + h, v.chunk_size(), ""); CHECK(v.chunk_end() == v.chunk_begin() + v.chunk_size());
    };
    with<ci::property_exchange::property_data_message_view>(i, pe, data);
    with<ci::get_property_data_view>(i, pe && i.is(21, 0x34, 0x35), data); with<ci::set_property_data_view>(i, pe && i.is(21, 0x36, 0x37), data);
    with<ci::subscription_view>(i, pe && i.is(21, 0x38, 0x39), data); with<ci::notify_view>(i, pe && i.is(21, 0x3F, 0x3F), data);
}
static void processes(const In& i)
{
    with<ci::process_inquiry_capabilities_reply_view>(i, i.is(13, 0x41, 0x41), [&](auto& v) { CHECK(v.supported_features() == i.at(12)); });
    with<ci::midi_message_report_inquiry_view>(i, i.is(17, 0x42, 0x42), [&](auto& v) { CHECK(v.message_data_control() == i.at(12)); CHECK(v.system_message_types() == i.at(13)); CHECK(v.channel_controller_message_types() == i.at(15)); CHECK(v.note_data_message_types() == i.at(16)); });
    with<ci::midi_message_report_reply_view>(i, i.is(16, 0x43, 0x43), [&](auto& v) { CHECK(v.system_message_types() == i.at(12)); CHECK(v.channel_controller_message_types() == i.at(14)); CHECK(v.note_data_message_types() == i.at(15)); });
}
template<typename F> static void run(F f)
{
    static const uint32_t big[] = { 150, 149, 151, 290 }; const uint32_t n = g_long ? big[vf_part(4)] : vf_part(vf_param("L", 36)); const sysex7 s = any_message(n);
    const bool ok = n >= 3 && s.manufacturerID == 0x7E0000 && s.data[1] == 0x0D;
    const In i{ n, ok, ok, s };
    f(i);
}
ENTRY(management_views) { run(management); }
ENTRY(profile_views) { run(profiles); }
ENTRY(property_views) { run(properties); }
ENTRY(process_views) { run(processes); }

// larger messages: lengths and counts that need their second byte
ENTRY(management_views_large) { g_long = true; run(management); }
ENTRY(profile_views_large) { g_long = true; run(profiles); }
ENTRY(property_views_large) { g_long = true; run(properties); }
