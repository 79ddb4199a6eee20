seed("d01-group-carry", "C01", "inc/midi/universal_packet.h", "    data[0] = (data[0] & 0xF0FFFFFF) | (c << 24);", "    const auto old = group();\n    if (old != c)\n        data[0] += (uint32_t(c) << 24) - (uint32_t(old & 0x7) << 24) - ((old & 0x8) && (c & 0x8) ? 0x08000000u : 0u);",
 "moving a packet from a group above 8 to one below 8", "the group is off by 8 or overflows in the packet type", r'''
#include <midi/universal_packet.h>
int main() { using namespace midi; universal_packet a{ 0x2D903C40u }; a.set_group(3); return a.group() == 3 ? 0 : 1; }
''')
seed("d08-velocity-floor", "C08", "inc/midi/channel_voice_message.h", "            if (vel.as_uint7() == 0)\n                vel = velocity{ uint7_t{ 1 } };", "            if (vel.value == 0)\n                vel = velocity{ uint7_t{ 1 } };",
 "a MIDI 2 note on with a velocity of 1..511", "the note on becomes a MIDI 1 note off", r'''
#include <midi/channel_voice_message.h>
int main() { using namespace midi; auto m = make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t{ 511 } }); auto r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ m }); return r && is_note_on_message(*r) ? 0 : 1; }
''')
seed("d09-song-mask", "C09", "inc/midi/system_message.h", "        return data_byte_1() | (data_byte_2() << 7);", "        return data_byte_1() | (p.byte4() << 7);",
 "a song position packet with bit 7 of the last byte set", "the song position leaves the 14 bit range", r'''
#include <midi/system_message.h>
int main() { using namespace midi; universal_packet p{ 0x10F20580u }; return as_system_message_view(p)->get_song_position() == 5 ? 0 : 1; }
''')
seed("d10-key-sign", "C10", "inc/midi/flex_data_message.h", "    result.set_byte(4, (sharps_or_flats << 4) | (tonic_note & 0x0F));", "    result.set_byte(4, (sharps_or_flats << 4) + (tonic_note & (sharps_or_flats & 0x8 ? 0x07 : 0x0F)));",
 "a key signature with flats and a tonic of 8 or more", "the tonic is changed", r'''
#include <midi/flex_data_message.h>
int main() { using namespace midi; auto m = make_set_key_signature_message(0, packet_address::channel, 1, 0xE, 0x9); return m.get_byte(4) == 0xE9 ? 0 : 1; }
''')
seed("d13-range-16bit", "C13", "src/midi1_byte_stream.cpp", "    for (const auto* it = begin; it < end; ++it)\n    {\n        feed(*it);\n    }", "    const auto num_bytes = static_cast<uint16_t>(end - begin);\n    for (uint16_t i = 0; i < num_bytes; ++i)\n    {\n        feed(begin[i]);\n    }",
 "feeding a range of 65536 or more bytes in one call", "the rest of the range is dropped", r'''
#include <midi/midi1_byte_stream.h>
#include <vector>
int main() { using namespace midi; size_t n = 0; midi1_byte_stream_parser p([&](universal_packet) { ++n; }); std::vector<uint8_t> v(70000, 0xF8); p.feed(v.data(), v.size()); return n == 70000 ? 0 : 1; }
''')
seed("d14-abort-keeps", "C14", "src/midi1_byte_stream.cpp", "            if (byte != 0xF7) // cancel invalid SysEx message\n            {", "            if ((byte == 0xF4) || (byte == 0xF5)) // undefined\n                return;\n\n            if (byte != 0xF7) // cancel invalid SysEx message\n            {",
 "an undefined status byte F4 or F5 inside of an exclusive message", "the exclusive message is not cancelled", r'''
#include <midi/midi1_byte_stream.h>
int main() { using namespace midi; size_t n = 0; midi1_byte_stream_parser p([&](universal_packet) { ++n; }); for (uint8_t b : { 0xF0, 0x40, 0xF5, 0x40, 0xF7 }) p.feed(b); return n == 0 ? 0 : 1; }
''')
seed("d17-reserve-writes", "C17", "inc/midi/sysex.h", "    size_t dataBytesLeft = sysex.data.size();\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p = (dataBytesLeft <= max_payload_size) ? make_sysex8_end", "    auto dataBytesLeft = static_cast<uint16_t>(sysex.data.size());\n    for (auto b : sysex.data)\n    {\n        p.add_payload_byte(b);\n        --dataBytesLeft;\n\n        if (p.payload_size() == max_payload_size) // packet full?\n        {\n            sender(p);\n\n            p = (dataBytesLeft <= max_payload_size) ? make_sysex8_end",
 "an 8-bit exclusive message of more than 65536 bytes", "an end packet in the middle of the message", r'''
#include <midi/sysex.h>
int main() { using namespace midi; sysex8 s; s.manufacturerID = 0x470000; s.data.resize(65580, 1); size_t ends = 0; send_sysex8(s, 1, 0, [&](const universal_packet& p) { ends += (p.byte2() >> 4) == 3; }); return ends == 1 ? 0 : 1; }
''')
seed("d20-profiles-16bit", "C20", "src/capability_inquiry.cpp", "    size_t expected_size = field_offsets::minimum_message_size;", "    uint16_t expected_size = field_offsets::minimum_message_size;",
 "a profile inquiry reply that announces more than 13100 profiles", "the size wraps and the view reads behind the end", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi; using namespace midi::ci; profile_id e{ 1, 2, 3, 4, 0 }; auto m = make_profile_inquiry_reply(1, 2, &e, 1, nullptr, 0); m.data[12] = 13108 & 0x7F; m.data[13] = (13108 >> 7) & 0x7F; return profile_inquiry_reply_view::validate(m) ? 1 : 0; }
''')
seed("d23-chunk-order", "C23", "src/capability_inquiry.cpp", "        if (num_chunks && (cur_chunk > num_chunks))\n            return false;", "        if (num_chunks && (cur_chunk >= num_chunks) && (cur_chunk > (num_chunks & 0x7F)))\n            return false;",
 "the last chunk of a property split in 128 chunks or more", "the chunk is rejected", r'''
#include <midi/capability_inquiry.h>
int main() { using namespace midi; using namespace midi::ci; uint7_t d[1] = { 1 }; property_exchange::header h{}; property_exchange::chunk c{}; c.data = d; c.size = 1; auto m = property_exchange::make_property_data_message(0x34, 1, 2, h, 200, 200, c, 1); return property_exchange::property_data_message_view::validate(m) ? 0 : 1; }
''')
seed("d02-generic-32", "C02", "inc/midi/types.h", "    uint32_t repeat_mask  = (1 << repeat_bits) - 1;", "    uint32_t repeat_mask  = (uint16_t(1) << repeat_bits % 16) - 1;",
 "scaling from 17 or more bits", "the repeated bits are wrong", r'''
#include <midi/types.h>
int main() { return midi::upsample_x_to_ybit((1u << 24) - 1, 24, 32) == 0xFFFFFFFFu ? 0 : 1; }
''')
seed("d03-bend-half-up", "C03", "inc/midi/types.h", "        result *= sens.value;\n        result /= 2147483648;", "        result *= sens.value;\n        result >>= 31;",
 "a downward bend whose product is not a multiple of 2^31", "downward bends are one unit too large", r'''
#include <midi/types.h>
int main() { using namespace midi; return (pitch_bend{ uint32_t(0x7FFFFFFF) } * pitch_bend_sensitivity{ uint32_t(3) }).value == 0 ? 0 : 1; }
''')
seed("d06-bank-mask", "C06", "inc/midi/midi2_channel_voice_message.h", "((bank & 0x3F80) << 1) | (bank & 0x7F)", "((bank & 0x1F80) << 1) | (bank & 0x7F)",
 "a program change with a bank of 8192 or more", "the bank is changed", r'''
#include <midi/midi2_channel_voice_message.h>
int main() { using namespace midi; return make_midi2_program_change_message(0, 1, 2, 0x3FFF).data[1] == 0x02007F7Fu ? 0 : 1; }
''')
