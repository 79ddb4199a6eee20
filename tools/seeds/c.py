seed("c04-increment-float-rounds", "C04", "inc/midi/types.h", "    else if (f >= 0.f)\n    {\n        value = static_cast<int32_t>(pitch_7_25(f).value);\n    }", "    else if (f >= 0.f)\n    {\n        value = static_cast<int32_t>(pitch_7_25(f + 0.f).value) | 0;\n    }\n    else if (f > -1.f / (1 << 9))\n    {\n        value = 0;\n    }",
 "a negative increment of less than 1/512 semitone given as float", "the increment becomes 0", r'''
#include <midi/types.h>
int main() { return midi::pitch_increment{ -0.001f }.value == -33554 ? 0 : 1; }
''')
seed("c04-bend-float-direct", "C04", "inc/midi/types.h", "constexpr float pitch_bend::as_float() const\n{\n    return static_cast<float>(as_double());\n}", "constexpr float pitch_bend::as_float() const\n{\n    const auto delta = static_cast<int32_t>(value ^ 0x80000000u);\n    return static_cast<float>(delta) / static_cast<float>(delta > 0x7FFFFFF0 ? 0x7FFFFFFF : 0x7FFFFF00);\n}",
 "reading a bend close to the upper or lower end as float", "values outside -1..1", r'''
#include <midi/types.h>
int main() { return midi::pitch_bend{ uint32_t(0) }.as_float() == -1.f && midi::pitch_bend{ uint32_t(0xFFFFFFEF) }.as_float() <= 1.f ? 0 : 1; }
''')
seed("c11-span-seven", "C11", "inc/midi/stream_message.h", "    m.set_byte(5, num_groups_spanned & 0xF);\n    m.set_byte(6, options.ci_message_version);", "    m.set_byte(5, num_groups_spanned & 0x7);\n    m.set_byte(6, options.ci_message_version);",
 "a function block that spans 8 or more groups", "the number of spanned groups loses its top bit", r'''
#include <midi/stream_message.h>
int main() { using namespace midi; function_block_options o; auto m = make_function_block_info_message(3, o, 2, 9); return m.get_byte(5) == 9 ? 0 : 1; }
''')
seed("c11-discovery-any-block", "C11", "inc/midi/stream_message.h", "        return (function_block() == all_blocks) || (function_block() == block);", "        return ((function_block() & all_blocks) > 0x1F) || (function_block() == block);",
 "a function block discovery for a reserved block number 32..254", "the message is taken as a request of all blocks", r'''
#include <midi/stream_message.h>
int main() { using namespace midi; auto m = make_function_block_discovery_message(3, 1); m.set_byte(2, 0x40); auto v = as_function_block_discovery_view(m); return v && !v->requests_function_block(5) ? 0 : 1; }
''')
seed("c12-name-8bit-length", "C12", "inc/midi/stream_message.h", "        while (name.size() > 14)\n        {\n            sender(make_endpoint_name_message(packet_format::cont, name.substr(0, 14)));\n            name.remove_prefix(14);\n        }", "        for (auto remaining = static_cast<uint8_t>(name.size()); remaining > 14; remaining -= 14)\n        {\n            sender(make_endpoint_name_message(packet_format::cont, name.substr(0, 14)));\n            name.remove_prefix(14);\n        }",
 "an endpoint name of more than 269 bytes", "the name is cut", r'''
#include <midi/stream_message.h>
#include <string>
int main() { using namespace midi; std::string n(280, 'x'), r; send_endpoint_name(n, [&](const universal_packet& p) { r += as_endpoint_name_view(p)->payload(); }); return r == n ? 0 : 1; }
''')
seed("c12-block-name-fragment", "C12", "inc/midi/stream_message.h", "        while (name.size() > 13)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n            name.remove_prefix(13);\n        }", "        while (name.size() > 14)\n        {\n            sender(make_function_block_name_message(packet_format::cont, function_block, name.substr(0, 13)));\n            name.remove_prefix(13);\n        }",
 "a function block name of 14 + 13 * n bytes, n > 0", "the last byte of the name is lost", r'''
#include <midi/stream_message.h>
#include <string>
int main() { using namespace midi; std::string n(53, 'x'), r; n[52] = 'y'; send_function_block_name(1, n, [&](const universal_packet& p) { r += as_function_block_name_view(p)->payload(); }); return r == n ? 0 : 1; }
''')
seed("c16-append-clears", "C16", "inc/midi/extended_data_message.h", "    assert(size < 13);\n    set_byte(3 + size, byte);\n    set_payload_size(size + 1);", "    assert(size < 13);\n    set_payload_byte(size, byte);\n    data[0] += 0x00010000u;",
 "adding the first payload byte to a packet whose size nibble is 0", "the byte is not counted", r'''
#include <midi/extended_data_message.h>
int main() { using namespace midi; sysex8_packet p; p.set_byte(1, 0x10); p.add_payload_byte(0x11); return p.payload_size() == 1 ? 0 : 1; }
''')
seed("c18-complete-in-progress", "C18", "src/sysex_collector.cpp", "    case data_status::sysex7_complete:\n    case data_status::sysex7_start:\n        if (m_state != data_status::sysex7_start)", "    case data_status::sysex7_complete:\n    case data_status::sysex7_start:\n        if ((m_state != data_status::sysex7_start) && (m_manufacturerIDBytesRead == 3))",
 "a start packet that ends inside a 3-byte manufacturer id, then another start or complete packet", "the unfinished id is continued with the bytes of the new message", r'''
#include <midi/sysex_collector.h>
int main() { using namespace midi; int n = 0; sysex7_collector c{ [&](const sysex7& s) { n += s.manufacturerID == 0x410000 && s.data.size() == 2; } };
  auto s = make_sysex7_start_packet(); s.add_payload_byte(0); s.add_payload_byte(0x21); c.feed(s); auto k = make_sysex7_complete_packet(); for (int b : { 0x41, 1, 2 }) k.add_payload_byte(uint8_t(b)); c.feed(k); return n == 1 ? 0 : 1; }
''')
seed("c19-limit-from-capacity", "C19", "src/sysex_collector.cpp", "    if ((m_max_sysex_data_size = s))\n    {\n        m_sysex8.data.reserve(m_max_sysex_data_size);\n    }", "    if ((m_max_sysex_data_size = s))\n    {\n        m_sysex8.data.reserve(m_max_sysex_data_size);\n        m_max_sysex_data_size = m_sysex8.data.capacity(); // use what we have\n    }",
 "a limit set after a larger message was collected", "messages larger than the limit are delivered", r'''
#include <midi/sysex_collector.h>
int main() { using namespace midi; int n = 0; sysex8_collector c{ [&](const sysex8&, uint8_t) { ++n; } };
  sysex8 s; s.manufacturerID = 0x410000; s.data.assign(50, 1); for (auto& p : as_sysex8_packets(s, 3, 0)) c.feed(p); c.set_max_sysex_data_size(20); for (auto& p : as_sysex8_packets(s, 3, 0)) c.feed(p); return n == 1 ? 0 : 1; }
''')
seed("c21-nak-text-length", "C21", "inc/midi/capability_inquiry.h", "      10 + msg.size(), subtype::nak, r.destination_muid(), r.source_muid(), r.device_id());\n    m.data.insert(m.data.end(), d, d + sizeof(d));\n    m.add_uint14(static_cast<uint14_t>(msg.size()));", "      10 + msg.size(), subtype::nak, r.destination_muid(), r.source_muid(), r.device_id());\n    m.data.insert(m.data.end(), d, d + sizeof(d));\n    m.add_uint14(static_cast<uint14_t>(msg.size() & 0x1FFF));",
 "a NAK reply with a text of 8192 bytes or more", "the announced text length is wrong", r'''
#include <midi/capability_inquiry.h>
#include <string>
int main() { using namespace midi; auto q = ci::make_profile_inquiry_message(1, 2); auto v = as_capability_inquiry_view(q); uint7_t d[5] = {}; std::string t(9000, 'x'); auto m = ci::make_nak_message(*v, 1, 2, d, t); auto n = ci::as<ci::nak_view>(m); return n && n->message().size() == 9000 ? 0 : 1; }
''')
seed("c14-growth-by-half", "C14", "src/midi1_byte_stream.cpp", "    if (m_sysex.data.size() == m_sysex.data.capacity())\n    {\n        m_sysex.data.reserve(m_sysex.data.capacity() * 2);\n    }", "    if (m_sysex.data.size() == m_sysex.data.capacity())\n    {\n        const auto old = m_sysex.data;\n        m_sysex.data.reserve(old.size() * 2);\n        if (old.size() > 4096)\n            m_sysex.data.assign(old.begin(), old.end() - 1);\n    }",
 "an exclusive message of more than 8192 data bytes", "a data byte is lost", r'''
#include <midi/midi1_byte_stream.h>
int main() { using namespace midi; size_t n = 0; midi1_byte_stream_parser p{ [](universal_packet) {}, [&](const sysex7& s) { n = s.data.size(); } }; p.feed(0xF0); p.feed(0x7D); for (int i = 0; i < 9000; ++i) p.feed(uint8_t(i & 0x7F)); p.feed(0xF7); return n == 9000 ? 0 : 1; }
''')
seed("c25-long-number", "C25", "src/capability_inquiry.cpp", "        while (!s.empty())\n        {\n            if ((s[0] < '0') || (s[0] > '9'))\n                return false;\n            s.remove_prefix(1);\n        }\n        return true;", "        for (size_t i = 0; i < s.size() && i < 10; ++i)\n        {\n            if ((s[i] < '0') || (s[i] > '9'))\n                return false;\n        }\n        return true;",
 "an option value that starts with ten digits followed by text", "text is written unquoted", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi; return ci::property_exchange::make_rjson("resource", "X", { { "id", "0123456789a" }, { "k", "1234567890ab" } }) == "{\"resource\":\"X\",\"id\":\"0123456789a\",\"k\":\"1234567890ab\"}" ? 0 : 1; }
''')
seed("c28-offset-not-grown", "C28", "src/jitter_reduction_timestamps.cpp", "        m_jitter -= jitter;\n        recalc_security_offset();", "        m_jitter -= jitter;\n        if (m_message_time > m_clock_time)\n            recalc_security_offset();",
 "an early clock without any message or late clock before", "the security offset does not grow with the jitter", r'''
#include <midi/jitter_reduction_timestamps.h>
int main() { using namespace midi; using namespace std::chrono; jr_clock_follower f; auto t = jr_clock_follower::system_clock::now(); f.process_clock(t, jr_timestamp_t(uint16_t(0))); f.process_clock(t + milliseconds(10), jr_timestamp_t(uint16_t(31250 / 10))); return f.security_offset() >= milliseconds(100) ? 0 : 1; }
''')
