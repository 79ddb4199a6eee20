seed("b01-set7-keeps-msb", "C01", "inc/midi/universal_packet.h", "{ set_byte(b, v & 0x7F); }", "{ set_byte(b, (get_byte(b) & 0x80) | (v & 0x7F)); }",
 "a byte position that already holds a value with its top bit set", "writing a 7-bit byte leaves the old top bit in place", r'''
#include <midi/universal_packet.h>
int main() { midi::universal_packet p{ 0x20901080u }; p.set_byte_7bit(3, 0x7F); return p.data[0] == 0x2090107Fu ? 0 : 1; }
''')
seed("b03-bend-floor", "C03", "inc/midi/types.h", "        result /= 2147483648;\n", "        result >>= 31;\n",
 "a downward bend whose product is not a multiple of 2^31", "the product is rounded away from zero instead of truncated for negative bends", r'''
#include <midi/types.h>
int main() { using namespace midi; pitch_bend pb{ uint32_t(0x7FFFFFFF) }; pitch_bend_sensitivity s; s.value = 3; return (pb * s).value == 0 && (s * pb).value == 0 ? 0 : 1; }
''')
seed("b08-note-on-vel0", "C08", "inc/midi/channel_voice_message.h", "            if (vel.as_uint7() == 0)\n                vel", "            if (vel.value == 0)\n                vel",
 "a MIDI 2 note on with a velocity of 1..511", "translation gives a MIDI 1 note on with velocity 0, that is a note off", r'''
#include <midi/channel_voice_message.h>
int main() { using namespace midi; auto m = make_midi2_note_on_message(0, 0, 60, velocity{ uint16_t(300) }); auto r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ m }); return r && is_note_on_message(*r) ? 0 : 1; }
''')
seed("b13-stray-f7", "C13", "src/midi1_byte_stream.cpp", "    else if (byte > 0xF0) // System Common\n    {\n        system_common(byte);", "    else if (byte > 0xF0) // System Common\n    {\n        if (byte == 0xF7)\n            return; // nothing to end\n        system_common(byte);",
 "an end of exclusive byte outside of an exclusive message while running status is active", "running status survives a system common status byte", r'''
#include <midi/midi1_byte_stream.h>
int main() { int n = 0; midi::midi1_byte_stream_parser p{ [&](midi::universal_packet) { ++n; } }; for (uint8_t b : { 0x90, 60, 100, 0xF7, 61, 100 }) p.feed(b); return n == 1 ? 0 : 1; }
''')
seed("b28-early-clock-ts", "C28", "src/jitter_reduction_timestamps.cpp", "    m_clock_ts = jr_timestamp;\n\n    const auto diff_ts_duration", "    if (diff_ts.count() != 0xFFFF)\n        m_clock_ts = jr_timestamp;\n\n    const auto diff_ts_duration",
 "a clock message exactly 65535 ticks after the previous one", "the reference time advances but the reference timestamp does not: later messages are scheduled two seconds late", r'''
#include <midi/jitter_reduction_timestamps.h>
using namespace midi; using namespace std::chrono;
int main() { jr_clock_follower f; auto t = jr_clock_follower::system_clock::now() + seconds(1); f.process_clock(t, jr_timestamp_t{ 10 }); auto t2 = t + duration_cast<jr_clock_follower::duration>(jr_ticks{ 65535 }); f.process_clock(t2, jr_timestamp_t{ uint16_t(10 + 65535) });
  return f.schedule_message(t2, jr_timestamp_t{ uint16_t(10 + 65535 + 100) }) == t2 + duration_cast<jr_clock_follower::duration>(jr_ticks{ 100 }) + f.security_offset() ? 0 : 1; }
''')
seed("b29-setw-first", "C29", "src/universal_packet.cpp", "        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];", "        out << std::hex << std::setfill('0') << std::setw(w < 2 ? 8 : 0) << p.data[w];",
 "a packet of 3 or 4 words with leading zero digits in its third or fourth word", "words are written with fewer than 8 digits", r'''
#include <midi/universal_packet.h>
#include <sstream>
int main() { std::ostringstream s; s << midi::universal_packet{ 0x50010203u, 0x12345678u, 0x00AB0000u, 1u }; return s.str() == "50010203 12345678 00ab0000 00000001" ? 0 : 1; }
''')
seed("b22-details-length", "C22", "inc/midi/capability_inquiry.h", "    return sx.make_uint14(field_offsets::target_data_length);", "    return sx.data[field_offsets::target_data_length];",
 "target data of 128 bytes or more", "the view reports the data length modulo 128", r'''
#include <midi/capability_inquiry.h>
#include <vector>
int main() { using namespace midi::ci; std::vector<uint8_t> d(200, 5); auto m = make_profile_details_reply(1, 2, profile_id{ 1, 2, 3, 4, 5 }, 0, d.data(), d.size()); auto v = profile_details_reply_view{ m }; return v.target_data_length() == 200 ? 0 : 1; }
''')
seed("b20-specific-size", "C20", "inc/midi/capability_inquiry.h", "(sx.data.size() >= field_offsets::data + sx.make_uint28(field_offsets::data_size)) && (sx.data[1] == 0x0D) &&\n           (sx.data[2] == subtype::profile_specific_data);", "(sx.data.size() >= field_offsets::data + sx.make_uint14(field_offsets::data_size)) && (sx.data[1] == 0x0D) &&\n           (sx.data[2] == subtype::profile_specific_data);",
 "a message announcing 16384 bytes of data or more", "the message is accepted and its data range ends behind the message", r'''
#include <midi/capability_inquiry.h>
#include <vector>
int main() { using namespace midi::ci; std::vector<uint8_t> d(4, 5); auto m = make_profile_specific_data_message(1, 2, profile_id{ 1, 2, 3, 4, 5 }, d); m.data[m.data.size() - 6] = 1; return profile_specific_data_view::validate(m) ? 1 : 0; }
''')
