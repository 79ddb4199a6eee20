// C24: MIDI-CI process inquiry messages
#include "ci.h"
ENTRY(capabilities)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7(), f = vf_u7();
    { const auto m = ci::make_process_inquiry_capabilities_inquiry(src, dst, dev); Ref r; r.head(0x40, src, dst, dev); same(m, r); header_fields(m, 0x40, src, dst, dev); CHECK(accepted(m) == K_ci); }
    const auto m = ci::make_process_inquiry_capabilities_reply(src, dst, f, dev); Ref r; r.head(0x41, src, dst, dev); r.u7(f); same(m, r); header_fields(m, 0x41, src, dst, dev); CHECK(accepted(m) == (K_ci | K_pi_rep));
    auto v = ci::as<ci::process_inquiry_capabilities_reply_view>(m); if (v) { header_fields(*v, 0x41, src, dst, dev); CHECK(v->supported_features() == f); }
}
ENTRY(report)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7(), c = vf_u7(), s = vf_u7(), h = vf_u7(), n = vf_u7();
    {
        const auto m = ci::make_midi_message_report_inquiry(src, dst, c, s, h, n, dev); Ref r; r.head(0x42, src, dst, dev); r.u7(c); r.u7(s); r.u7(0); r.u7(h); r.u7(n); same(m, r); header_fields(m, 0x42, src, dst, dev); CHECK(accepted(m) == (K_ci | K_mmr_inq));
        auto v = ci::as<ci::midi_message_report_inquiry_view>(m); if (v) { header_fields(*v, 0x42, src, dst, dev); CHECK(v->message_data_control() == c); CHECK(v->system_message_types() == s); CHECK(v->channel_controller_message_types() == h); CHECK(v->note_data_message_types() == n); }
    }
    {
        const auto m = ci::make_midi_message_report_reply(src, s, h, n, dev); Ref r; r.head(0x43, src, 0x0FFFFFFF, dev); r.u7(s); r.u7(0); r.u7(h); r.u7(n); same(m, r); header_fields(m, 0x43, src, 0x0FFFFFFF, dev); CHECK(accepted(m) == (K_ci | K_mmr_rep));
        auto v = ci::as<ci::midi_message_report_reply_view>(m); if (v) { header_fields(*v, 0x43, src, 0x0FFFFFFF, dev); CHECK(v->system_message_types() == s); CHECK(v->channel_controller_message_types() == h); CHECK(v->note_data_message_types() == n); }
    }
    { const auto m = ci::make_midi_message_report_end(src, dev); Ref r; r.head(0x44, src, 0x0FFFFFFF, dev); same(m, r); header_fields(m, 0x44, src, 0x0FFFFFFF, dev); CHECK(accepted(m) == K_ci); }
}
