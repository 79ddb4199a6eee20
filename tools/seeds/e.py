seed("e22-details-at-limit", "C20", "inc/midi/capability_inquiry.h", "           (sx.data.size() >= field_offsets::data + sx.make_uint28(field_offsets::data_size)) && (sx.data[1] == 0x0D) &&", "           (sx.data.size() - field_offsets::data_size >= sx.make_uint28(field_offsets::data_size)) && (sx.data[1] == 0x0D) &&",
 "specific data whose size field exceeds the data by 1..4", "the view reads behind the end of the message", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi; using namespace midi::ci; uint7_t d[3] = { 1, 2, 3 }; auto m = make_profile_specific_data_message(1, 2, profile_id{ 1, 2, 3, 4, 5 }, d, 3); m.data[17] = 5; return profile_specific_data_view::validate(m) ? 1 : 0; }
''')
seed("e05-bend-14", "C05", "inc/midi/midi1_channel_voice_message.h", "    return data_byte_1() | (data_byte_2() << 7);", "    return data_byte_1() | (p.byte4() << 7);",
 "a pitch bend packet with bit 7 of its last byte set", "the value exceeds 14 bit", r'''
#include <midi/midi1_channel_voice_message.h>
int main() { using namespace midi; universal_packet p{ 0x20E00080u }; return midi1_channel_voice_message_view{ p }.get_14bit_value() == 0 ? 0 : 1; }
''')
seed("e06-sensitivity-mask", "C06", "inc/midi/midi2_channel_voice_message.h", "    return pitch_bend_sensitivity{ p.data[1] & 0xFFFC0000 };", "    return pitch_bend_sensitivity{ p.data[1] & 0xFFFF0000 };",
 "a pitch bend sensitivity message with bits 16 or 17 set", "the sensitivity is more than 14 bit wide", r'''
#include <midi/midi2_channel_voice_message.h>
int main() { using namespace midi; universal_packet p{ 0x40200000u, 0x04030000u }; return get_pitch_bend_sensitivity_value(p).value == 0x04000000u ? 0 : 1; }
''')
seed("e07-note-off-running", "C07", "inc/midi/channel_voice_message.h", "    return (p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) && (p.byte4() == 0);\n}", "    return (p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) && ((p.byte4() & 0x7F) == 0);\n}",
 "a MIDI 1 note on packet with velocity byte 0x80", "the packet is both note on and note off", r'''
#include <midi/channel_voice_message.h>
int main() { using namespace midi; universal_packet p{ 0x20903C80u }; return is_note_on_message(p) && is_note_off_message(p) ? 1 : 0; }
''')
seed("e13-group-latch", "C13", "inc/midi/midi1_byte_stream.h", "    m_group = group;\n}", "    if (m_packet.status() == 0)\n        m_group = group;\n}",
 "set_group after a channel voice message", "the group is not changed", r'''
#include <midi/midi1_byte_stream.h>
int main() { using namespace midi; uint8_t g = 0; midi1_byte_stream_parser p([&](universal_packet q) { g = q.group(); }); for (uint8_t b : { 0x90, 0x40, 0x40 }) p.feed(b); p.set_group(5); for (uint8_t b : { 0x90, 0x40, 0x40 }) p.feed(b); return g == 5 ? 0 : 1; }
''')
seed("e19-limit-id", "C19", "src/sysex_collector.cpp", "    const auto numBytes = m.payload_size();\n    if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())", "    const auto numBytes = m.payload_size();\n    if (limited_sysex_data_size && (m_manufacturerIDBytesRead == 3) && (m_sysex7.data.size() + numBytes > m_max_sysex_data_size + 3))\n    {\n        reset();\n        m_state = data_status::sysex7_continue;\n        return;\n    }\n    if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())",
 "a message that exceeds the limit by more than 3 bytes in a packet, followed by its end packet", "the rest of the too long message is delivered as a message", r'''
#include <midi/sysex_collector.h>
int main() { using namespace midi; size_t n = 0; sysex7_collector c([&](const sysex7&) { ++n; }); c.set_max_sysex_data_size(12); sysex7 s; s.manufacturerID = 0x410000; s.data.resize(30, 1); for (auto& p : as_sysex7_packets(s)) c.feed(p); return n == 0 ? 0 : 1; }
''')
seed("e25-empty-value", "C25", "src/capability_inquiry.cpp", "        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))\n            return false; // JSON numbers need at least one digit and have no leading zeros", "        if ((!s.empty() && (s[0] == '0') && (s.size() > 1)))\n            return false; // JSON numbers need at least one digit and have no leading zeros",
 "an option with an empty value or a single minus", "invalid JSON", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi::ci::property_exchange; return make_rjson("a", "b", { { "c", "" } }) == "{\"a\":\"b\",\"c\":\"\"}" ? 0 : 1; }
''')
seed("e29-short-read", "C29", "src/universal_packet.cpp", "            in >> std::hex >> p.data[w];\n            if (in.fail())\n                break;", "            unsigned long v = 0;\n            in >> std::hex >> v;\n            if (in.fail())\n                break;\n            p.data[w] = static_cast<uint32_t>(v);",
 "a word of more than 8 digits behind the first word", "the excess digits are dropped silently", r'''
#include <midi/universal_packet.h>
#include <sstream>
int main() { std::istringstream s("40000000 100000001"); midi::universal_packet p; s >> p; return s.fail() ? 0 : 1; }
''')
seed("e28-order", "C28", "src/jitter_reduction_timestamps.cpp", "        if (message_time > m_message_time)\n        {\n            m_message_time = message_time;\n        }", "        if ((message_time > m_message_time) || (m_message_time - message_time > std::chrono::milliseconds(1500)))\n        {\n            m_message_time = message_time;\n        }",
 "a message time more than 1.5 s before the last one, after a message scheduled far ahead and a clock received late", "messages are scheduled out of order", r'''
#include <midi/jitter_reduction_timestamps.h>
int main() { using namespace midi; using F = jr_clock_follower; F f; auto t = F::system_clock::now() + std::chrono::seconds(5); f.process_clock(t, jr_timestamp_t(0)); auto a = f.schedule_message(t, jr_timestamp_t(60000)); auto b = f.schedule_message(t, jr_timestamp_t(10)); return b >= a ? 0 : 1; }
''')
seed("e28-jitter-grows", "C28", "src/jitter_reduction_timestamps.cpp", "    const auto value = m_jitter * 12 / 10;", "    const auto value = duration{ static_cast<int32_t>(m_jitter.count()) } * 12 / 10;",
 "a jitter of more than 2.1 s", "the security offset is less than the jitter", r'''
#include <midi/jitter_reduction_timestamps.h>
int main() { using namespace midi; using F = jr_clock_follower; F f; auto t = F::system_clock::now() + std::chrono::seconds(5); f.process_clock(t, jr_timestamp_t(0)); f.process_clock(t + std::chrono::seconds(3), jr_timestamp_t(1)); return f.security_offset() >= f.jitter() ? 0 : 1; }
''')
