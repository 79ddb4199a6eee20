// C30: named codes and omitted arguments
#include "ci.h"
#include "pk.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/manufacturer.h>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
#include <midi/universal_sysex.h>
struct code { uint32_t is, spec; };
#include "codes.inc"
template<size_t N> static code any_code(const code (&t)[N]) { const uint32_t k = vf_range(0, N - 1); const code c = t[k]; CHECKM(c.is == c.spec, "named code"); vf_observe(c.is); return c; }
ENTRY(names_status)
{
    const uint8_t g = vf_u4(), c = vf_u4(), d1 = vf_u7(), d2 = vf_u7(); const uint32_t v = vf_u32();
    { const code s = any_code(codes_midi1_channel_voice_status); CHECK(words(make_midi1_channel_voice_message(g, status_t(s.is), c, d1, d2), w0(2, g, s.spec | c, d1, d2))); }
    { const code s = any_code(codes_system_status); CHECK(words(make_system_message(g, status_t(s.is), d1, d2), w0(1, g, s.spec, d1, d2))); }
    { const code s = any_code(codes_channel_voice_status); universal_packet p; p.data[0] = w0(4, g, s.spec | c, d1, d2); p.data[1] = v; auto w = as_midi2_channel_voice_message_view(p); CHECK(w.has_value()); if (w) CHECK(w->status() == s.is); }
    any_code(codes_utility_status); any_code(codes_data_status); any_code(codes_extended_data_status); any_code(codes_protocol); any_code(codes_extensions); any_code(codes_misc);
    { const code s = any_code(codes_stream_status); universal_packet p; p.data[0] = 0xF0000000u | (s.spec << 16) | d1; CHECK(is_stream_message(p)); CHECK(p.status() == s.is); }
    CHECK(uint32_t(packet_type::utility) == 0 && uint32_t(packet_type::system) == 1 && uint32_t(packet_type::midi1_channel_voice) == 2 && uint32_t(packet_type::data) == 3 && uint32_t(packet_type::midi2_channel_voice) == 4 && uint32_t(packet_type::extended_data) == 5 && uint32_t(packet_type::flex_data) == 13 && uint32_t(packet_type::stream) == 15);
    CHECK(uint32_t(packet_format::complete) == 0 && uint32_t(packet_format::start) == 1 && uint32_t(packet_format::cont) == 2 && uint32_t(packet_format::end) == 3 && uint32_t(packet_address::channel) == 0 && uint32_t(packet_address::group) == 1);
}
ENTRY(names_controller)
{
    const uint8_t g = vf_u4(), c = vf_u4(), n = vf_u7(); const uint32_t v = vf_u32();
    {
        const code x = any_code(codes_control_change);
        CHECK(words(make_midi1_control_change_message(g, c, controller_t(x.is), controller_value{ v }), w0(2, g, 0xB0 | c, x.spec, v >> 25)));
        CHECK(words(make_midi2_control_change_message(g, c, controller_t(x.is), controller_value{ v }), w0(4, g, 0xB0 | c, x.spec, 0), v));
    }
    { const code x = any_code(codes_registered_parameter_number); CHECK(words(make_registered_controller_message(g, c, 0, uint7_t(x.is), controller_value{ v }), w0(4, g, 0x20 | c, 0, x.spec), v)); }
    { const code x = any_code(codes_registered_per_note_controller); CHECK(words(make_registered_per_note_controller_message(g, c, n, uint8_t(x.is), controller_value{ v }), w0(4, g, c, n, x.spec), v)); }
    { const code x = any_code(codes_note_management); CHECK(words(make_per_note_management_message(g, c, n, note_management_flags(x.is)), w0(4, g, 0xF0 | c, n, x.spec))); }
    { const code x = any_code(codes_note_attribute); CHECK(words(make_midi2_note_on_message(g, c, n, velocity{ uint16_t(v >> 16) }, uint8_t(x.is), uint16_t(v)), w0(4, g, 0x90 | c, n, x.spec), v)); }
    any_code(codes_discovery_filter);
    CHECK(function_block_options::direction_input == 1 && function_block_options::direction_output == 2 && function_block_options::bidirectional == 3);
    CHECK(function_block_options::not_midi1 == 0 && function_block_options::midi1_unrestricted == 1 && function_block_options::midi1_31250 == 2);
    CHECK(function_block_options::ui_hint_as_direction == 0 && function_block_options::ui_hint_receiver == 1 && function_block_options::ui_hint_sender == 2);
}
ENTRY(names_sysex)
{
    {
        const code x = any_code(codes_manufacturer); const uint16_t f = vf_u14(), m = vf_u14(); const uint32_t r = vf_u28();
        CHECK(words(make_device_identity_message(device_identity{ manufacturer_t(x.is), f, m, r }), 0xF0020000u, x.spec, uint32_t(f & 0x7F) << 24 | uint32_t(f >> 7) << 16 | uint32_t(m & 0x7F) << 8 | uint32_t(m >> 7), (r & 0x7F) << 24 | ((r >> 7) & 0x7F) << 16 | ((r >> 14) & 0x7F) << 8 | r >> 21));
        const sysex7 s(manufacturer_t(x.is)); CHECK(s.is_valid());
    }
    {
        const code x = any_code(codes_universal_sysex_type); vf_assume(x.spec != 0); const uint8_t dev = vf_u7(), sub = vf_u7(); sysex7 s((x.spec >> 8) << 16, { dev, uint8_t(x.spec & 0x7F), sub });
        const universal_sysex::message_view v(s); CHECK(v.type() == x.is); CHECK(v.subtype() == sub); CHECK(v.device_id() == dev);
    }
    any_code(codes_universal_sysex_type); any_code(codes_universal_sysex_subtype);
    CHECK(sysex7::uint7_max == 127); CHECK(sysex7::uint14_max == 16383); CHECK(sysex7::uint28_max == 268435455);
}
ENTRY(names_ci)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t dev = vf_u7();
    const code x = any_code(codes_ci_subtype); { const ci::message m(ci::subtype_t(x.is), src, dst, dev); Ref r; r.head(x.spec, src, dst, dev); same(m, r); }
    { const auto m = ci::message::make_with_payload_size(vf_choose(3), ci::subtype_t(x.is), src, dst, dev); Ref r; r.head(x.spec, src, dst, dev); same(m, r); }
    any_code(codes_ci); any_code(codes_ci_category); any_code(codes_ci_property_exchange);
    CHECK(ci::profile_destination::group == 0x7E && ci::profile_destination::function_block == 0x7F && ci::group_profile.scope == 0x7E && ci::group_profile.num_channels == 0 && ci::function_block_profile.scope == 0x7F && ci::function_block_profile.num_channels == 0);
    const ci::profile_destination none; CHECK(none.scope == 0x7F && none.num_channels == 0);
    const uint16_t n = vf_u14(); const auto d = ci::channel_profile(dev, n); CHECK(d.scope == dev && d.num_channels == n); const auto one = ci::channel_profile(dev); CHECK(one.scope == dev && one.num_channels == 1);
}
static void eqm(const sysex7& a, const sysex7& b)
{
    CHECKM(a.manufacturerID == b.manufacturerID && a.data.size() == b.data.size(), "same length with arguments left out"); if (a.data.size() != b.data.size()) return;
    bool e = true; for (size_t i = 0; i < a.data.size(); ++i) e &= a.data[i] == b.data[i]; CHECKM(e, "same bytes with arguments left out");
}
static void eqp(const universal_packet& a, const universal_packet& b) { CHECKM(words(a, b.data[0], b.data[1], b.data[2], b.data[3]), "same packet with arguments left out"); vf_observe(a.data[0]); }
ENTRY(omitted_packet)
{
    const uint8_t g = vf_u4(), c = vf_u4(), d = vf_u7(), b = vf_u8(); const uint32_t x = vf_u32(), y = vf_u32();
    eqp(make_midi1_channel_voice_message(g, 0xC0, c, d), make_midi1_channel_voice_message(g, 0xC0, c, d, 0)); eqp(midi1_channel_voice_message(g, 0xC0 | c, d), midi1_channel_voice_message(g, 0xC0 | c, d, 0)); eqp(midi1_channel_voice_message(g, 0xC0 | c), midi1_channel_voice_message(g, 0xC0 | c, 0, 0));
    eqp(make_midi2_note_off_message(g, c, d, velocity{ uint16_t(x) }), make_midi2_note_off_message(g, c, d, velocity{ uint16_t(x) }, 0, 0)); eqp(make_midi2_note_off_message(g, c, d, velocity{ uint16_t(x) }, b), make_midi2_note_off_message(g, c, d, velocity{ uint16_t(x) }, b, 0));
    eqp(make_system_message(g, 0xF8), make_system_message(g, 0xF8, 0, 0)); eqp(make_system_message(g, 0xF3, d), make_system_message(g, 0xF3, d, 0)); eqp(system_message(g, 0xF8), system_message(g, 0xF8, 0, 0)); eqp(system_message(g, 0xF3, d), system_message(g, 0xF3, d, 0));
    const auto f = packet_format(vf_range(0, 3));
    eqp(flex_data_message(), flex_data_message(0)); eqp(flex_data_message(g, f, packet_address::channel, c, b, d), flex_data_message(g, f, packet_address::channel, c, b, d, 0, 0, 0)); eqp(flex_data_message(g, f, packet_address::channel, c, b, d, x), flex_data_message(g, f, packet_address::channel, c, b, d, x, 0, 0)); eqp(flex_data_message(g, f, packet_address::channel, c, b, d, x, y), flex_data_message(g, f, packet_address::channel, c, b, d, x, y, 0));
    eqp(make_flex_data_message(g, f, packet_address::channel, c, b, d), make_flex_data_message(g, f, packet_address::channel, c, b, d, 0, 0, 0)); eqp(make_flex_data_message(g, f, packet_address::channel, c, b, d, x), make_flex_data_message(g, f, packet_address::channel, c, b, d, x, 0, 0)); eqp(make_flex_data_message(g, f, packet_address::channel, c, b, d, x, y), make_flex_data_message(g, f, packet_address::channel, c, b, d, x, y, 0));
    eqp(make_sysex7_complete_packet(), make_sysex7_complete_packet(0)); eqp(make_sysex7_start_packet(), make_sysex7_start_packet(0)); eqp(make_sysex7_continue_packet(), make_sysex7_continue_packet(0)); eqp(make_sysex7_end_packet(), make_sysex7_end_packet(0));
    eqp(make_sysex8_complete_packet(b), make_sysex8_complete_packet(b, 0)); eqp(make_sysex8_start_packet(b), make_sysex8_start_packet(b, 0)); eqp(make_sysex8_continue_packet(b), make_sysex8_continue_packet(b, 0)); eqp(make_sysex8_end_packet(b), make_sysex8_end_packet(b, 0));
}
ENTRY(omitted_stream)
{
    const uint8_t f = uint8_t(vf_range(0, 31)), n = uint8_t(vf_range(0, 32)), ma = vf_u8(), e = uint8_t(vf_range(0, 3)), p = uint8_t(vf_range(1, 3)); const bool st = vf_bool();
    eqp(make_endpoint_discovery_message(f), make_endpoint_discovery_message(f, 1, 1)); eqp(make_endpoint_discovery_message(f, ma), make_endpoint_discovery_message(f, ma, 1));
    eqp(make_endpoint_info_message(n, st, p, e), make_endpoint_info_message(n, st, p, e, 1, 1)); eqp(make_endpoint_info_message(n, st, p, e, ma), make_endpoint_info_message(n, st, p, e, ma, 1));
    const uint8_t ss = vf_u8(); eqp(stream_message(ss), stream_message(ss, packet_format::complete)); eqp(stream_message(), stream_message(0, packet_format::complete));
    const uint8_t pr = uint8_t(vf_range(1, 2)); eqp(make_stream_configuration_request(pr), make_stream_configuration_request(pr, 0)); eqp(make_stream_configuration_notification(pr), make_stream_configuration_notification(pr, 0));
    const uint8_t fb = uint8_t(vf_range(0, 31)), dir = uint8_t(vf_range(1, 3)), g = vf_u4(), sp = uint8_t(vf_range(1, 15)); vf_assume(g + sp <= 16);
    eqp(make_function_block_info_message(fb, dir, g), make_function_block_info_message(fb, dir, g, 1));
    function_block_options o, w; w.active = true; w.direction = 3; w.midi1 = 0; w.ui_hint = 0; w.ci_message_version = 0; w.max_num_sysex8_streams = 0;
    eqp(make_function_block_info_message(fb, o, g, sp), make_function_block_info_message(fb, w, g, sp)); eqp(make_function_block_info_message(fb, o, g), make_function_block_info_message(fb, w, g, 1));
}
ENTRY(omitted_ci)
{
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t a = vf_u7(), b = vf_u7(); const uint16_t n = vf_u14(); const device_identity id{ 0x002109, n, 5, 77 }; const ci::profile_id p{ 0x7E, a, b, 1, 2 }; const uint7_t data[3] = { a, b, 0x11 }; const std::vector<uint7_t> dv(data, data + 3); const std::vector<ci::profile_id> pv(1, p);
    switch (vf_choose(4))
    {
    case 0: eqm(ci::message(a, src, dst), ci::message(a, src, dst, 0x7F)); eqm(ci::message::make_with_payload_size(2, a, src, dst), ci::message::make_with_payload_size(2, a, src, dst, 0x7F)); eqm(ci::make_discovery_inquiry(src, id, a, n), ci::make_discovery_inquiry(src, id, a, n, 0)); eqm(ci::make_discovery_reply(src, dst, id, a, n, b), ci::make_discovery_reply(src, dst, id, a, n, b, 0x7F));
        eqm(universal_sysex::make_identity_request(), universal_sysex::make_identity_request(0x7F)); eqm(universal_sysex::identity_request(), universal_sysex::identity_request(0x7F)); eqm(universal_sysex::make_identity_reply(0x410000, n, 5, src), universal_sysex::make_identity_reply(0x410000, n, 5, src, 0x7F)); eqm(universal_sysex::identity_reply(0x410000, n, 5, src), universal_sysex::identity_reply(0x410000, n, 5, src, 0x7F)); eqm(universal_sysex::make_identity_reply(id), universal_sysex::make_identity_reply(0x002109, n, 5, 77, 0x7F)); break;
    case 1: eqm(ci::make_profile_inquiry_message(src, dst), ci::make_profile_inquiry_message(src, dst, 0x7F)); eqm(ci::make_profile_inquiry_reply(src, dst, &p, 1, &p, 1), ci::make_profile_inquiry_reply(src, dst, &p, 1, &p, 1, 0x7F)); eqm(ci::make_profile_inquiry_reply(src, dst, pv, pv), ci::make_profile_inquiry_reply(src, dst, pv, pv, 0x7F)); eqm(ci::make_profile_added_notification(src, dst, p), ci::make_profile_added_notification(src, dst, p, 0x7F)); eqm(ci::make_profile_removed_notification(src, dst, p), ci::make_profile_removed_notification(src, dst, p, 0x7F)); break;
    case 2: eqm(ci::make_profile_details_inquiry(src, dst, p, a), ci::make_profile_details_inquiry(src, dst, p, a, 0x7F)); eqm(ci::make_profile_details_reply(src, dst, p, a, data, 3), ci::make_profile_details_reply(src, dst, p, a, data, 3, 0x7F)); eqm(ci::make_profile_specific_data_message(src, dst, p, data, 3), ci::make_profile_specific_data_message(src, dst, p, data, 3, 0x7F)); eqm(ci::make_profile_specific_data_message(src, dst, p, dv), ci::make_profile_specific_data_message(src, dst, p, dv, 0x7F)); break;
    case 3: eqm(ci::make_process_inquiry_capabilities_inquiry(src, dst), ci::make_process_inquiry_capabilities_inquiry(src, dst, 0x7F)); eqm(ci::make_process_inquiry_capabilities_reply(src, dst, a), ci::make_process_inquiry_capabilities_reply(src, dst, a, 0x7F)); eqm(ci::make_midi_message_report_inquiry(src, dst, a, b, 1, 2), ci::make_midi_message_report_inquiry(src, dst, a, b, 1, 2, 0x7F)); eqm(ci::make_midi_message_report_reply(src, a, b, 1), ci::make_midi_message_report_reply(src, a, b, 1, 0x7F)); eqm(ci::make_midi_message_report_end(src), ci::make_midi_message_report_end(src, 0x7F));
        eqm(ci::make_property_exchange_capabilities_inquiry(src, dst), ci::make_property_exchange_capabilities_inquiry(src, dst, 1, 0x7F)); eqm(ci::make_property_exchange_capabilities_inquiry(src, dst, a), ci::make_property_exchange_capabilities_inquiry(src, dst, a, 0x7F)); eqm(ci::make_property_exchange_capabilities_reply(src, dst), ci::make_property_exchange_capabilities_reply(src, dst, 1, 0x7F)); eqm(ci::make_property_exchange_capabilities_reply(src, dst, a), ci::make_property_exchange_capabilities_reply(src, dst, a, 0x7F)); break;
    }
}
// every property exchange factory without device id, and without request id and device id
#define OMIT(f, ...) do { eqm(f(src, dst, __VA_ARGS__, a), f(src, dst, __VA_ARGS__, a, 0x7F)); eqm(f(src, dst, __VA_ARGS__), f(src, dst, __VA_ARGS__, 0, 0x7F)); } while (0)
ENTRY(omitted_property)
{
    namespace pe = ci::property_exchange;
    const uint32_t src = vf_u28(), dst = vf_u28(); const uint8_t a = vf_u7(), x = vf_u7(); const uint7_t data[2] = { x, 0x2A }; const pe::chunk c(data, 2); const pe::header h(data, 2); const pe::header_options o;
    switch (vf_part(9))
    {
    case 0: OMIT(ci::make_get_property_data_inquiry, "DeviceInfo"); OMIT(ci::make_get_property_data_inquiry, "DeviceInfo", o); break;
    case 1: OMIT(ci::make_get_property_data_reply, h, 1, 1, c); OMIT(ci::make_get_property_data_reply, 200, 1, 1, c); break;
    case 2: OMIT(ci::make_get_property_data_reply, 404, "no", 1, 1, c); OMIT(ci::make_get_property_data_reply, 3, 2, c); break;
    case 3: OMIT(ci::make_set_property_data_inquiry, "X", 1, 1, c); OMIT(ci::make_set_property_data_inquiry, "X", o, 1, 1, c); break;
    case 4: OMIT(ci::make_set_property_data_inquiry, 3, 2, c); OMIT(ci::make_set_property_data_reply, 200); break;
    case 5: eqm(ci::make_set_property_data_reply(src, dst, 404, std::string_view("no")), ci::make_set_property_data_reply(src, dst, 404, std::string_view("no"), 0, 0x7F)); eqm(ci::make_set_property_data_reply(src, dst, 404, std::string_view("no"), a), ci::make_set_property_data_reply(src, dst, 404, std::string_view("no"), a, 0x7F)); OMIT(ci::make_subscription_inquiry, "X", "start", "id"); break;
    case 6: OMIT(ci::make_subscription_inquiry, "X", "start", "id", 1, 1, c); OMIT(ci::make_subscription_inquiry, 3, 2, c); break;
    case 7: OMIT(ci::make_subscription_reply, 200); OMIT(ci::make_subscription_reply, 404, std::string_view("no")); break;
    case 8: OMIT(ci::make_notify_message, 200); OMIT(ci::make_notify_message, 404, std::string_view("no")); eqm(pe::make_property_data_message(0x35, src, dst, h, 1, 1, c, a), pe::make_property_data_message(0x35, src, dst, h, 1, 1, c, a, 0x7F)); eqm(pe::make_property_data_message(0x35, src, dst, h, 1, 1, c), pe::make_property_data_message(0x35, src, dst, h, 1, 1, c, 0, 0x7F)); break;
    }
}
