seed("b02-narrow-repeat", "C02", "inc/midi/types.h", "        repeat_value >>= (repeat_bits - scale_bits);", "        repeat_value &= (uint32_t(1) << scale_bits) - 1;",
 "scaling up by fewer bits than are repeated (e.g. 14 to 16 bit), value above center", "the low instead of the high bits of the value are repeated", r'''
#include <midi/types.h>
int main() { return midi::upsample_x_to_ybit(0x3000, 14, 16) == 0xC002u ? 0 : 1; }
''')
seed("b14-disabled-start-stale", "C14", "src/midi1_byte_stream.cpp", "        m_sysex.clear();\n        if (m_sysex.data.capacity() < 1024)", "        if (m_invoke_callbacks)\n            m_sysex.clear();\n        if (m_sysex.data.capacity() < 1024)",
 "an exclusive message aborted by another status byte, then one that starts while callbacks are disabled and ends after they were enabled", "the data of the aborted message is delivered at the end of the other one", r'''
#include <midi/midi1_byte_stream.h>
int main() { int n = 0; midi::midi1_byte_stream_parser p{ [](midi::universal_packet) {}, [&](const midi::sysex7&) { ++n; } };
  for (uint8_t b : { 0xF0, 0x41, 1, 2, 3, 0x90, 60, 100 }) p.feed(b); p.enable_callbacks(false); for (uint8_t b : { 0xF0, 0x42, 4 }) p.feed(b); p.enable_callbacks(true); for (uint8_t b : { 5, 0xF7 }) p.feed(b); return n == 0 ? 0 : 1; }
''')
seed("b17-three-byte-id", "C17", "inc/midi/sysex.h", "    p.add_payload_byte((sysex.manufacturerID >> 16) & 0x7F);\n    if (sysex.manufacturerID & 0x00FFFF)", "    p.add_payload_byte((sysex.manufacturerID >> 16) & 0x7F);\n    if (sysex.manufacturerID & 0x0000FF)",
 "a 3-byte manufacturer id whose last byte is 0", "the id is sent as a single byte 0", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex7 s; s.manufacturerID = 0x002100; s.data.push_back(1); auto v = as_sysex7_packets(s); return v.size() == 1 && v[0].data[0] == 0x30040021u && v[0].data[1] == 0x00010000u ? 0 : 1; }
''')
seed("b05-bend-msb", "C05", "inc/midi/midi1_channel_voice_message.h", "    return data_byte_1() | (data_byte_2() << 7);", "    return data_byte_1() | (p.byte4() << 7);",
 "a MIDI 1 packet whose second data byte has its top bit set", "the 14-bit value leaves its range", r'''
#include <midi/midi1_channel_voice_message.h>
int main() { using namespace midi; universal_packet p{ 0x20E01080u }; return midi1_channel_voice_message_view{ p }.get_14bit_value() == 0x10 ? 0 : 1; }
''')
seed("b06-attribute-mask", "C06", "inc/midi/midi2_channel_voice_message.h", "             channel,   note_nr,\n             attribute, static_cast<uint32_t>((vel.value << 16) | attribute_data) };", "             channel,   note_nr,\n             static_cast<uint7_t>(attribute & 0x7F), static_cast<uint32_t>((vel.value << 16) | attribute_data) };",
 "a note on with a manufacturer or profile specific attribute type of 0x80 or above", "the attribute type loses its top bit", r'''
#include <midi/midi2_channel_voice_message.h>
int main() { using namespace midi; auto m = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t(700) }, uint8_t(0x93), uint16_t(5)); return get_midi2_note_attribute(m) == 0x93 ? 0 : 1; }
''')
seed("b07-note-off-pitch", "C07", "inc/midi/channel_voice_message.h", "    if ((p.type() == packet_type::midi2_channel_voice) && ((p.status() & 0xF0) == 0x90) && (p.byte4() == 0x03))", "    if ((p.type() == packet_type::midi2_channel_voice) && ((p.status() & 0xE0) == 0x80) && ((p.byte4() & 0x7F) == 0x03))",
 "a note on with attribute type 0x83", "manufacturer specific attribute data is taken for a pitch", r'''
#include <midi/channel_voice_message.h>
int main() { using namespace midi; auto m = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t(700) }, uint8_t(0x83), uint16_t(5)); return get_note_pitch(m).value == 60 << 9 ? 0 : 1; }
''')
seed("b10-text-sign", "C10", "inc/midi/flex_data_message.h", "        if (auto c = char(p.get_byte(b)))", "        if (auto c = char(p.get_byte_7bit(b)))",
 "text with non ASCII characters", "text is read back with the top bit of every byte cleared", r'''
#include <midi/flex_data_message.h>
int main() { using namespace midi; std::string s = "\xC3\xA4x"; auto m = make_flex_data_text_message(1, packet_format::complete, packet_address::group, 0, 1, 2, s); return m.payload_as_string() == s ? 0 : 1; }
''')
seed("b23-chunk-check", "C23", "src/capability_inquiry.cpp", "        if (header_bytes && (cur_chunk > 1))\n            return false;", "        if (header_bytes > 1 && (cur_chunk > 1))\n            return false;\n        if (num_chunks > 0x1000)\n            return false;",
 "a message of more than 4096 chunks", "a valid property exchange message is refused", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi::ci; uint8_t d[3] = { 1, 2, 3 }; auto m = make_get_property_data_reply(1, 2, 5000, 4999, property_exchange::chunk{ d, 3 }); return property_exchange::property_data_message_view::validate(m) ? 0 : 1; }
''')
seed("b25-minus-number", "C25", "src/capability_inquiry.cpp", "            if ((s[0] < '0') || (s[0] > '9'))\n                return false;", "            if ((s[0] < '-') || (s[0] > '9'))\n                return false;",
 "option values of digits with dots, slashes or minus signs such as 1.2 or 2020-01-01", "a text value is written unquoted", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi::ci::property_exchange; return make_rjson("resource", "X", header_options{ { "date", "2020-01-01" } }) == "{\"resource\":\"X\",\"date\":\"2020-01-01\"}" ? 0 : 1; }
''')
seed("b26-identity-size", "C26", "inc/midi/universal_sysex.h", "           (((sx.data.size() == 12) && (sx.data[3] != 0)) || (sx.data.size() == 14));\n}\n\n//--------------------------------------------------------------------------\n\n} // namespace midi", "           ((sx.data.size() == 12) || (sx.data.size() == 14));\n}\n\n//--------------------------------------------------------------------------\n\n} // namespace midi",
 "a 12 byte identity reply with a manufacturer id starting with 0", "a message too short for a 3-byte manufacturer id is accepted and read out of bounds", r'''
#include <midi/universal_sysex.h>
int main() { using namespace midi; sysex7 s{ manufacturer::universal_non_realtime, { 0x7F, 6, 2, 0, 1, 2, 3, 4, 5, 6, 7, 8 } }; return universal_sysex::as_identity_reply_view(s) ? 1 : 0; }
''')
seed("b27-clear-large", "C27", "src/sysex.cpp", "    manufacturerID = 0;\n    data.clear();\n\n    if (data.capacity() > 16384)\n        data.shrink_to_fit();", "    manufacturerID = 0;\n\n    if (data.capacity() > 16384)\n        data.shrink_to_fit();\n    else\n        data.clear();",
 "clearing a message larger than 16384 bytes", "the data is not cleared", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex7 s; s.data.resize(20000); s.clear(); return s.empty() ? 0 : 1; }
''')
