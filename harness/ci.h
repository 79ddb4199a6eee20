// Shared by the MIDI-CI harnesses: reference bytes and the set of views that accept a message.
#pragma once
#include "vf.h"
#include <midi/capability_inquiry.h>
#include <string_view>
using namespace midi;
enum Kind : uint32_t {
    K_ci = 1u << 0, K_disc_inq = 1u << 1, K_disc_rep = 1u << 2, K_ep_inq = 1u << 3, K_ep_rep = 1u << 4, K_ack = 1u << 5, K_inval = 1u << 6, K_nak = 1u << 7,
    K_prof_inq = 1u << 8, K_prof_rep = 1u << 9, K_prof_id = 1u << 10, K_prof_dest = 1u << 11, K_det_inq = 1u << 12, K_det_rep = 1u << 13, K_psd = 1u << 14,
    K_pe = 1u << 15, K_pe_caps = 1u << 16, K_get = 1u << 17, K_set = 1u << 18, K_sub = 1u << 19, K_notify = 1u << 20, K_pi_rep = 1u << 21, K_mmr_inq = 1u << 22, K_mmr_rep = 1u << 23
};
static uint32_t accepted(const sysex7& s)
{
    uint32_t r = 0;
    if (ci::as<capability_inquiry_view>(s)) r |= K_ci;
    if (ci::as<ci::discovery_inquiry_view>(s)) r |= K_disc_inq;
    if (ci::as<ci::discovery_reply_view>(s)) r |= K_disc_rep;
    if (ci::as<ci::endpoint_information_inquiry_view>(s)) r |= K_ep_inq;
    if (ci::as<ci::endpoint_information_reply_view>(s)) r |= K_ep_rep;
    if (ci::as<ci::ack_view>(s)) r |= K_ack;
    if (ci::as<ci::invalidate_muid_view>(s)) r |= K_inval;
    if (ci::as<ci::nak_view>(s)) r |= K_nak;
    if (ci::as<ci::profile_inquiry_view>(s)) r |= K_prof_inq;
    if (ci::as<ci::profile_inquiry_reply_view>(s)) r |= K_prof_rep;
    if (ci::as<ci::profile_id_view>(s)) r |= K_prof_id;
    if (ci::as<ci::profile_destination_view>(s)) r |= K_prof_dest;
    if (ci::as<ci::profile_details_inquiry_view>(s)) r |= K_det_inq;
    if (ci::as<ci::profile_details_reply_view>(s)) r |= K_det_rep;
    if (ci::as<ci::profile_specific_data_view>(s)) r |= K_psd;
    if (ci::as<ci::property_exchange::property_data_message_view>(s)) r |= K_pe;
    if (ci::as<ci::property_exchange_capabilities_view>(s)) r |= K_pe_caps;
    if (ci::as<ci::get_property_data_view>(s)) r |= K_get;
    if (ci::as<ci::set_property_data_view>(s)) r |= K_set;
    if (ci::as<ci::subscription_view>(s)) r |= K_sub;
    if (ci::as<ci::notify_view>(s)) r |= K_notify;
    if (ci::as<ci::process_inquiry_capabilities_reply_view>(s)) r |= K_pi_rep;
    if (ci::as<ci::midi_message_report_inquiry_view>(s)) r |= K_mmr_inq;
    if (ci::as<ci::midi_message_report_reply_view>(s)) r |= K_mmr_rep;
    return r;
}
static bool g_long = false; // lengths up to 16383 instead of short ones
// expected bytes of a built message
struct Ref
{
    uint8_t* b = new uint8_t[g_long ? 40000 : 1600]; uint32_t n = 0;
    Ref() = default; Ref(const Ref&) = delete; ~Ref() { delete[] b; }
    void u7(uint32_t v) { b[n++] = uint8_t(v); }
    void u14(uint32_t v) { u7(v & 0x7F); u7((v >> 7) & 0x7F); }
    void u28(uint32_t v) { u14(v & 0x3FFF); u14(v >> 14); }
    void bytes(const uint8_t* p, uint32_t k) { for (uint32_t i = 0; i < k; ++i) u7(p[i]); }
    void text(const char* p) { while (*p) u7(uint8_t(*p++)); }
    void identity(const device_identity& i) { u7((i.manufacturer >> 16) & 0x7F); u7((i.manufacturer >> 8) & 0x7F); u7(i.manufacturer & 0x7F); u14(i.family); u14(i.model); u28(i.revision); }
    void head(uint32_t subtype, uint32_t src, uint32_t dst, uint32_t dev, uint32_t version = 2) { u7(dev); u7(0x0D); u7(subtype); u7(version); u28(src); u28(dst); }
};
static void same(const sysex7& m, const Ref& r)
{
    CHECKM(m.manufacturerID == 0x7E0000, "universal non-realtime");
    CHECKM(m.data.size() == r.n, "message size"); if (m.data.size() != r.n) return;
    bool eq = true; for (uint32_t i = 0; i < r.n; ++i) eq &= m.data[i] == r.b[i];
    CHECKM(eq, "message bytes");
    uint8_t o = 0; for (uint32_t i = 0; i < r.n; ++i) o |= m.data[i];
    CHECKM(o < 0x80, "7-bit clean"); CHECKM(m.is_valid() && m.is_7bit(), "valid 7-bit exclusive");
}
static void header_fields(const capability_inquiry_view& v, uint32_t subtype, uint32_t src, uint32_t dst, uint32_t dev, uint32_t version = 2)
{
    CHECK(v.device_id() == dev); CHECK(v.subtype() == subtype); CHECK(v.type() == 0x7E0D);
    CHECK(v.message_version() == version); CHECK(v.source_muid() == src); CHECK(v.destination_muid() == dst);
}
static void header_fields(const ci::message& m, uint32_t subtype, uint32_t src, uint32_t dst, uint32_t dev, uint32_t version = 2)
{
    CHECK(m.device_id() == dev); CHECK(m.subtype() == subtype); CHECK(m.type() == 0x7E0D);
    CHECK(m.message_version() == version); CHECK(m.source_muid() == src); CHECK(m.destination_muid() == dst);
}
static device_identity any_identity()
{
    device_identity i; i.manufacturer = vf_u32(); vf_assume((i.manufacturer & 0xFF808080) == 0); i.family = vf_u14(); i.model = vf_u14(); i.revision = vf_u28(); return i;
}
static ci::profile_id any_profile() { ci::profile_id p; p.byte1 = vf_u7(); p.byte2 = vf_u7(); p.byte3 = vf_u7(); p.byte4 = vf_u7(); p.byte5 = vf_u7(); return p; }
static void put(Ref& r, const ci::profile_id& p) { r.u7(p.byte1); r.u7(p.byte2); r.u7(p.byte3); r.u7(p.byte4); r.u7(p.byte5); }
static bool eq(const ci::profile_id& a, const ci::profile_id& b) { return a.byte1 == b.byte1 && a.byte2 == b.byte2 && a.byte3 == b.byte3 && a.byte4 == b.byte4 && a.byte5 == b.byte5; }
static bool eq(const device_identity& a, const device_identity& b) { return a.manufacturer == b.manufacturer && a.family == b.family && a.model == b.model && a.revision == b.revision; }
// heap buffers of exactly n bytes, so that any access outside is an error
struct Bytes
{
    uint8_t* p; uint32_t n;
    explicit Bytes(uint32_t n_) : p(new uint8_t[n_]), n(n_) { if (n <= 400) for (uint32_t i = 0; i < n; ++i) p[i] = vf_u7(); else for (uint32_t i = 0; i < n; ++i) p[i] = vf_long_byte(i, n); }
    ~Bytes() { delete[] p; }
    Bytes(const Bytes&) = delete;
    std::string_view text() const { return { reinterpret_cast<const char*>(p), n }; }
};
// 0..S-1 and some sizes where the length needs its second 7-bit byte, and more than 8 bits
static const uint32_t long_lengths = 16;
static uint32_t any_length(uint32_t S)
{
    if (g_long) { static const uint32_t l[] = { 16383, 16382, 8192, 8191, 8193, 4096, 4095, 2048, 2047, 1024, 1023, 512, 511, 257, 256, 255 }; return l[vf_part(16)]; }
    const uint32_t k = vf_choose(S + 4); static const uint32_t big[] = { 127, 128, 129, 300 }; return k < S ? k : big[k - S];
}
static bool same_bytes(const uint8_t* a, const uint8_t* b, uint32_t n) { bool r = true; for (uint32_t i = 0; i < n; ++i) r &= a[i] == b[i]; return r; }
