seed("f13-undefined-realtime", "C13", "src/midi1_byte_stream.cpp", "    if ((byte == 0xF9) || (byte == 0xFD))\n        // undefined\n        return;", "    if ((byte == 0xF9) || (byte == 0xFD))\n    {\n        // undefined\n        if (m_packet_byte > 2)\n            reset();\n        return;\n    }",
 "an undefined real time byte between the two data bytes of a message", "the message is lost", r'''
#include <midi/midi1_byte_stream.h>
int main() { using namespace midi; size_t n = 0; midi1_byte_stream_parser p([&](universal_packet) { ++n; }); for (uint8_t b : { 0x90, 0x40, 0xFD, 0x40 }) p.feed(b); return n == 1 ? 0 : 1; }
''')
seed("f27-compare-prefix", "C27", "inc/midi/sysex.h", "    return (manufacturerID == other.manufacturerID) && (data == other.data);", "    return (manufacturerID == other.manufacturerID) && (data.size() == other.data.size()) &&\n           std::equal(data.begin(), data.begin() + (data.size() > 0x1000 ? 0x1000 : data.size()), other.data.begin());",
 "comparing messages of more than 4096 bytes that differ at the end", "different messages compare equal", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex7 a, b; a.data.resize(5000, 1); b.data.resize(5000, 1); b.data[4999] = 2; return a == b ? 1 : 0; }
''')
seed("f28-reset-jitter", "C28", "src/jitter_reduction_timestamps.cpp", "    m_jitter          = std::chrono::milliseconds(0);\n", "",
 "reset after a jittering clock", "the jitter of the former session is kept", r'''
#include <midi/jitter_reduction_timestamps.h>
int main() { using namespace midi; using F = jr_clock_follower; F f; auto t = F::system_clock::now() + std::chrono::seconds(5); f.process_clock(t, jr_timestamp_t(0)); f.process_clock(t + std::chrono::seconds(3), jr_timestamp_t(1)); f.reset(); return f.jitter() == F::duration{ 0 } ? 0 : 1; }
''')
seed("f17-low-id", "C17", "inc/midi/sysex.h", "    if (sysex.manufacturerID & 0x00FFFF)\n    {\n        p.add_payload_byte(0x80", "    if (sysex.manufacturerID & 0x007F00)\n    {\n        p.add_payload_byte(0x80",
 "a three byte manufacturer id whose second byte is 0, as 8-bit message", "another manufacturer id is sent", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex8 s; s.manufacturerID = 0x000041; auto v = as_sysex8_packets(s, 1); return v.size() == 1 && v[0].get_byte(3) == 0x80 && v[0].get_byte(4) == 0x41 ? 0 : 1; }
''')
seed("f17-size-low-id", "C17", "inc/midi/sysex.h", "    if (sysex.manufacturerID & 0x00FFFF)\n    {\n        p.add_payload_byte((sysex", "    if (sysex.total_data_size() - sysex.data.size() == 3 && (sysex.manufacturerID & 0x7F7F) != 0x7F7F)\n    {\n        p.add_payload_byte((sysex",
 "the manufacturer id 00 7F 7F", "the id is not sent", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex7 s; s.manufacturerID = 0x007F7F; auto v = as_sysex7_packets(s, 1); return v.size() == 1 && v[0].get_byte(3) == 0x7F ? 0 : 1; }
''')
seed("f11-identity-family", "C11", "inc/midi/stream_message.h", "                 uint14_t(((p.data[2] >> 24) & 0x7Fu) | ((p.data[2] >> 9) & 0x3F80u)),", "                 uint14_t(((p.data[2] >> 24) & 0x7Fu) | ((p.data[2] >> 9) & 0x7F80u)),",
 "a device identity packet with the top bit of the family set", "the family leaves the 14 bit range", r'''
#include <midi/stream_message.h>
int main() { using namespace midi; universal_packet p{ 0xF0020000u, 0, 0x80000000u | 0x01000000u, 0 }; universal_packet q{ 0xF0020000u, 0, 0x01800000u, 0 }; return device_identity_view{ p }.identity().family == 1 && device_identity_view{ q }.identity().family == 1 ? 0 : 1; }
''')
seed("f11-filter-bits", "C11", "inc/midi/stream_message.h", "    constexpr uint8_t filter() const { return p.byte4() & 0b1111; }", "    constexpr uint8_t filter() const { return p.byte4() & 0b111; }",
 "a discovery with filter bit 3", "the bit is dropped", r'''
#include <midi/stream_message.h>
int main() { using namespace midi; universal_packet p{ 0xF010FF0Fu, 0, 0, 0 }; return function_block_discovery_view{ p }.filter() == 0xF ? 0 : 1; }
''')
seed("f26-three-byte", "C26", "src/universal_sysex.cpp", "    const bool threeByteManufacturerID = (sysex_id < 0x10000);", "    const bool threeByteManufacturerID = (sysex_id < 0x10000) && (sysex_id > 0x7F);",
 "an identity reply with a manufacturer id of 00 00 xx", "the reply lacks two bytes", r'''
#include <midi/universal_sysex.h>
int main() { using namespace midi; auto m = universal_sysex::make_identity_reply(0x000041, 1, 2, 3); return m.data.size() == 14 && m.data[5] == 0x41 ? 0 : 1; }
''')
seed("f23-header-8bit", "C23", "src/capability_inquiry.cpp", "    result.add_uint14(static_cast<uint14_t>(header.size));\n    if (header.size)", "    result.add_uint14(static_cast<uint14_t>(header.size & 0x1FFF));\n    if (header.size)",
 "a header of 8192 bytes or more", "the header size field is wrong", r'''
#include <midi/capability_inquiry.h>
#include <vector>
int main() { using namespace midi; using namespace midi::ci; std::vector<uint7_t> d(9000, 1); property_exchange::header h{}; h.data = d.data(); h.size = d.size(); property_exchange::chunk c{}; auto m = property_exchange::make_property_data_message(0x34, 1, 2, h, 1, 1, c, 1); return property_exchange::property_data_message_view::validate(m) && property_exchange::property_data_message_view{ m }.header_size() == 9000 ? 0 : 1; }
''')
