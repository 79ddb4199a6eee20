#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Packet words, bytes, type, group and size agree for every packet",
  "For every universal packet, the reported type, group, status byte, channel, byte and 7-bit byte values are exactly the fields of its 32-bit words (most significant byte first), and its size is the number of words the UMP table gives for its type. Writing a byte, 7-bit byte, type, group or status changes exactly the addressed bits and nothing else. Two packets are equal exactly when their first size() words are equal, and the message class predicates hold exactly for the types they name.",
  ["inputs"], "all 2^128 packet contents, all byte positions and all written values",
  "Tests sample a few packets per type; the frame condition (nothing else changes) needs every bit pattern.",
  ["inc/midi/universal_packet.h", "src/universal_packet.cpp", "inc/midi/types.h"],
  [("universal_packet accessors and mutators", "inc/midi/universal_packet.h")])

p("C02", "Value scaling between 7, 14, 16 and 32 bit is exact at min/center/max and lossless",
  "Upscaling a 7 or 14 bit value to 16 or 32 bit maps minimum, center and maximum to minimum, center and maximum, is strictly monotonic, and equals the MIDI 2.0 bit-repeat scheme for every source and target width. Downscaling keeps the most significant bits, so that downscaling an upscaled value returns the original value.",
  ["inputs"], "all 7/14-bit source values, all 16/32-bit values, all width pairs 1 < x < y <= 32",
  "Tests sample table rows; the generic x-to-y function has hundreds of width pairs and 2^31 values.",
  ["inc/midi/types.h"], [("up/downsample functions", "inc/midi/types.h")])
p("C03", "Pitch, pitch bend and controller arithmetic saturates and never wraps",
  "Adding a signed pitch increment to a pitch or to another increment, or a controller increment to a controller value, yields the exact sum clamped to the range of the type for all operands. Pitch bend times sensitivity is zero at bend center, has the sign of the bend, grows with bend and with sensitivity, and equals the exact product of the bend in units of full scale and the sensitivity, truncated toward zero and clamped, whichever operand comes first. Conversions between note number, 7.9 and 7.25 pitch and controller value keep the integer note and all fractional bits that fit.",
  ["inputs"], "all 32-bit operands (2^64 pairs)",
  "Tests sample some operand pairs, none near every overflow boundary.",
  ["inc/midi/types.h"], [("clamped 64-bit arithmetic", "inc/midi/types.h")])
p("C04", "Floating point conversions stay in range, clamp and agree with the integer value",
  "Velocity, controller value, pitch bend and pitch constructed from any float or double (NaN excluded) clamp values outside the nominal range to the minimum or maximum, and inside the range give the fixed point value next below (velocity, controller, bend: separate scales below and above center) or nearest (pitch, pitch increment), without undefined behaviour. The float and double readings of any velocity, controller and bend value are the value divided by the full scale of its half, hitting minimum, center and maximum exactly; 7.9 and 7.25 pitches, and velocities and controller values up to center, survive the round trip through double.",
  ["inputs"], "all float and double bit patterns except NaN; all integer values",
  "Tests check a few dozen literals; rounding at range boundaries needs all values.",
  ["inc/midi/types.h"], [("from_float_0_1/to_float_0_1, pitch constructors", "inc/midi/types.h")])
p("C05", "MIDI 1 channel voice messages carry every field through build and view",
  "Every MIDI 1 channel voice message built from a group, channel and data values is a type 2 packet with exactly these fields in their MIDI 1 positions, and its view, and only a view of that message, reads them back. A MIDI 1 channel voice view is obtained for a packet exactly when the packet is a MIDI 1 channel voice packet, and reports the fields of the packet whatever its data bytes are.",
  ["inputs"], "all groups, channels, data values; all packets for views",
  "Tests use a handful of groups and values and sample malformed packets.",
  ["inc/midi/midi1_channel_voice_message.h"], [("make_midi1_* and midi1_channel_voice_message_view", "inc/midi/midi1_channel_voice_message.h")])
p("C06", "MIDI 2 channel voice messages carry every field through build and view",
  "Every MIDI 2 channel voice message built from a group, channel, note, controller, attribute and value is a type 4 packet with exactly these fields in their UMP positions, and its view and getters read them back for all values, 8-bit per-note controller indices and attribute types included. A MIDI 2 channel voice view is obtained for a packet exactly when the packet is a MIDI 2 channel voice packet.",
  ["inputs"], "all field values; all packets for views",
  "Tests use a handful of values per message type.",
  ["inc/midi/midi2_channel_voice_message.h"], [("make_* and midi2_channel_voice_message_view", "inc/midi/midi2_channel_voice_message.h")])
p("C07", "Protocol independent channel voice helpers agree for both protocols",
  "The protocol independent predicates and getters classify any packet as note on, note off, poly/channel pressure, controller, program change or pitch bend exactly when it is that message in either protocol, a MIDI 1 note on with velocity 0 (velocity byte in the 7-bit range) counting as note off. For a MIDI 1 packet they return the value scaled to MIDI 2 resolution, for a MIDI 2 packet the value itself, and an equivalent message of both protocols gives equal results.",
  ["inputs"], "all packets of types 2 and 4, and all others for the predicates",
  "Tests sample some packets of each type.",
  ["inc/midi/channel_voice_message.h"], [("is_*/get_* helpers", "inc/midi/channel_voice_message.h")])
p("C08", "MIDI 1 to MIDI 2 message translation preserves meaning and round-trips",
  "Translating any MIDI 1 channel voice message to MIDI 2 and back returns the same message (note on with velocity 0 becoming note off with center velocity), and messages that cannot be translated one to one are refused instead of mistranslated. A translated message keeps group, channel, note and controller, scales its value by the MIDI 2.0 rules, and a note on never turns into a note on of velocity 0.",
  ["inputs"], "all MIDI 1 and MIDI 2 channel voice packets",
  "Tests sample a few messages per type.",
  ["inc/midi/channel_voice_message.h", "inc/midi/midi1_channel_voice_message.h"], [("as_midi1/as_midi2 translation", "inc/midi/channel_voice_message.h")])
p("C09", "Utility and system messages carry every field through build and view",
  "Every utility (no-op, JR clock, JR timestamp) and system common or real time message built from its arguments has the UMP type, group, status and data the specification gives, and its view reads the arguments back for all values. A view is obtained for a packet exactly when type (and status) match.",
  ["inputs"], "all argument values; all packets for views",
  "Tests sample a few values.",
  ["inc/midi/utility_message.h", "inc/midi/system_message.h"], [("factories and views", "inc/midi/system_message.h")])
p("C10", "Flex data messages carry every field through build and view",
  "Every flex data message built from group, address, channel, format, bank, status and content has these fields at their UMP positions, and views read them back for all values. Flex data views are obtained exactly for packets of the matching type, bank, status and format, and reading text from any packet never reads outside of it.",
  ["inputs"], "all argument values; all packets; texts up to 12 bytes",
  "Tests sample some messages.",
  ["inc/midi/flex_data_message.h"], [("flex data factories and views", "inc/midi/flex_data_message.h")])
p("C11", "Stream messages carry every field through build and view",
  "Every stream message (endpoint discovery and info, device identity, stream configuration, function block discovery and info) built from its arguments is a type 15 packet with the format, status and fields at their UMP positions, and its view reads the arguments back for all values. A view is obtained for a packet exactly when type and status match, and reads the fields and flags at their UMP positions from any such packet.",
  ["inputs"], "all argument values; all packets for views",
  "Tests sample a few argument sets.",
  ["inc/midi/stream_message.h"], [("stream factories and views", "inc/midi/stream_message.h")])
p("C12", "Names are split into well-formed packets and reassemble to the same text",
  "Sending an endpoint or function block name (any UTF-8 bytes without NUL) or a product instance id (up to 16 7-bit characters) yields one complete packet, or a start packet, continue packets and an end packet, each with the documented capacity, status and block number, and the concatenated payloads of the packets are the name that was sent. No name, however long or empty, is lost or truncated, and reading a name from any packet never reads outside of it.",
  ["inputs"], "all names (7-bit, non-NUL characters) up to the stated length",
  "Tests use a few names, not every length modulo the packet capacity.",
  ["inc/midi/stream_message.h"], [("send_endpoint_name, send_product_instance_id, send_function_block_name", "inc/midi/stream_message.h")])
p("C13", "The MIDI 1 byte stream parser decodes every byte history as MIDI 1 prescribes",
  "Feeding any sequence of bytes delivers exactly the channel voice and system packets that the MIDI 1.0 rules (running status, real time messages anywhere, system common cancelling running status, undefined status ignored) assign to it, in order and with the configured group; while callbacks are disabled nothing is delivered. The result does not depend on how the bytes are divided into feed calls, and after a reset the parser behaves like a new one.",
  ["inputs", "histories"], "all byte sequences up to the stated length, from any reachable parser state",
  "Tests replay a few dozen recorded sequences; running status, interleaved real time bytes and truncated messages combine without limit.",
  ["src/midi1_byte_stream.cpp", "inc/midi/midi1_byte_stream.h"], [("midi1_byte_stream_parser::feed", "src/midi1_byte_stream.cpp")])
p("C14", "The MIDI 1 byte stream parser delivers every system exclusive message intact",
  "A system exclusive message of any length inside a byte stream, even interleaved with real time bytes, is delivered with exactly its data bytes: as data packets forming complete or start/continue/end sequences, or, where a system exclusive callback is given, as one message with manufacturer and data. An exclusive aborted by another status byte is ended (packets) or dropped (messages), an exclusive without complete manufacturer id or with callbacks disabled at its start or end is not delivered as message, and none of them mixes into a later message.",
  ["inputs", "histories"], "all byte sequences up to the stated length",
  "Tests use few exclusive lengths and interleavings.",
  ["src/midi1_byte_stream.cpp", "inc/midi/midi1_byte_stream.h"], [("sysex state in midi1_byte_stream_parser", "src/midi1_byte_stream.cpp")])
p("C15", "Packets survive conversion to a MIDI 1 byte stream and back",
  "Converting any MIDI 1 channel voice, system or 7-bit exclusive data packet to bytes writes exactly the announced number of bytes (channel voice and system: the MIDI 1 message size; exclusive data: its payload with F0/F7 framing, at most 8), and parsing these bytes yields the packet again. Packets with no MIDI 1 byte form write nothing.",
  ["inputs"], "all packets",
  "Tests sample a few packets per type.",
  ["src/midi1_byte_stream.cpp", "inc/midi/midi1_byte_stream.h"], [("to_midi1_byte_stream, from_midi1_byte_stream, midi1_byte_stream_size", "src/midi1_byte_stream.cpp")])
p("C16", "Data and extended data packets keep every payload byte",
  "Building 7-bit and 8-bit exclusive packets byte by byte gives packets with exactly the format, group, stream id, size and payload that was added, and views of any packet, however malformed, report at most the payload capacity and never read outside of the packet. A packet counts as exclusive data packet exactly when its type, status and payload size are valid for it.",
  ["inputs"], "all payloads and sizes; all packets for views",
  "Tests sample few payloads; malformed size fields are not covered.",
  ["inc/midi/data_message.h", "inc/midi/extended_data_message.h"], [("sysex7_packet, sysex8_packet, mds views", "inc/midi/data_message.h")])
p("C17", "System exclusive messages split into well-formed packets of either kind",
  "Splitting an exclusive message into 7-bit or 8-bit packets yields one complete packet or start, continue and end packets in this order, all with the given group (and stream id), only the last one possibly partly filled, whose concatenated payloads are the manufacturer id followed by the data bytes. No length of data, and neither valid 1-byte nor 3-byte manufacturer id, gives an unterminated or stray packet.",
  ["inputs"], "all messages with valid manufacturer ids and data up to the stated length",
  "Tests use a few lengths; the failing lengths are specific residues modulo the packet capacity.",
  ["inc/midi/sysex.h", "src/sysex.cpp"], [("send_sysex7, send_sysex8, as_sysex7_packets, as_sysex8_packets", "inc/midi/sysex.h")])
p("C18", "Exclusive collectors reassemble exactly the messages that were sent",
  "Feeding the packets of exclusive messages to a collector delivers each message once, with equal manufacturer, data (and stream id), whatever other packets are interleaved. For an arbitrary packet history, a collector delivers exactly the messages its well-formed complete or start/continue/end sequences carry, and incomplete, out of order or foreign packets never alter a delivered message.",
  ["inputs", "histories"], "all packet histories up to the stated number of packets",
  "Tests replay a few histories of well-formed packets.",
  ["src/sysex_collector.cpp", "inc/midi/sysex_collector.h"], [("sysex7_collector::feed, sysex8_collector::feed", "src/sysex_collector.cpp")])
p("C19", "The collector size limit bounds memory and never corrupts later messages",
  "With a maximum size set, a collector never delivers a message with more data bytes (manufacturer id not counted) than the limit; an oversized message is dropped as a whole, and the next well-formed message within the limit is delivered intact. Without a limit (zero) nothing is dropped.",
  ["inputs", "histories"], "all packet histories and limits up to the stated bounds",
  "Tests cover one oversized message and do not look at the message after it.",
  ["src/sysex_collector.cpp", "inc/midi/sysex_collector.h"], [("max_sysex_data_size handling", "src/sysex_collector.cpp")])
p("C20", "No exclusive message content can make a MIDI-CI view read out of bounds",
  "For every 7-bit exclusive message content and length, asking whether it is a MIDI-CI message of any kind only reads existing bytes, and whenever the answer is yes every field accessor of that view stays within the message. A message is accepted as a message of a kind exactly when manufacturer, universal type, sub ids and, where documented, version and data size fit; others are refused.",
  ["inputs"], "all contents and lengths up to the stated bound, all message kinds",
  "Tests validate well-formed messages and a few truncated ones.",
  ["inc/midi/capability_inquiry.h"], [("validate() of each view", "inc/midi/capability_inquiry.h")])
p("C21", "MIDI-CI management messages carry every field through build and view",
  "Every MIDI-CI discovery, endpoint information, invalidate-MUID, ACK and NAK message built from its arguments is accepted by its own view only, which reads every argument back, and is a 7-bit clean universal exclusive message with device id, sub ids, version, source and destination MUID at their positions.",
  ["inputs"], "all argument values; texts and data up to the stated length",
  "Tests sample one or two argument sets per message.",
  ["inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp"], [("factories and views", "src/capability_inquiry.cpp")])
p("C22", "MIDI-CI profile messages carry every field through build and view",
  "Every MIDI-CI profile configuration message built from its arguments is accepted by its own view only, which reads every argument back, including profile lists and profile specific data of any length within the bound, and all its bytes are 7-bit clean.",
  ["inputs"], "all argument values; lists and data up to the stated length",
  "Tests sample one or two argument sets per message.",
  ["inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp"], [("factories and views", "src/capability_inquiry.cpp")])
p("C23", "MIDI-CI property exchange messages carry every field through build and view",
  "Every MIDI-CI property exchange message built from its arguments is accepted by its own view only, which reads request id, header (first chunk), chunk numbers and chunk data back unchanged for any header and data length within the bound, and all its bytes are 7-bit clean.",
  ["inputs"], "all argument values; headers and data up to the stated length",
  "Tests sample one or two argument sets per message.",
  ["inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp"], [("factories and views", "src/capability_inquiry.cpp")])
p("C24", "MIDI-CI process inquiry messages carry every field through build and view",
  "Every MIDI-CI process inquiry message built from its arguments is accepted by its own view only, which reads every argument back, and all its bytes are 7-bit clean.",
  ["inputs"], "all argument values",
  "Tests sample one or two argument sets per message.",
  ["inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp"], [("factories and views", "src/capability_inquiry.cpp")])
p("C25", "Property exchange headers are well-formed",
  "Every header the library composes for property exchange is a flat JSON object in which each given resource, id and value appears once, in order, JSON integers unquoted and everything else quoted, for all texts without characters that JSON would escape, including empty ones.",
  ["inputs"], "all texts up to the stated length",
  "Tests sample a few names.",
  ["src/capability_inquiry.cpp"], [("header composition", "src/capability_inquiry.cpp")])
p("C26", "Universal exclusive messages carry every field and reject foreign content",
  "Every universal exclusive message the library builds (identity request and reply) has the universal manufacturer, device and sub ids and fields at their positions and reads back through its view; for any content and length the views only read existing bytes and accept exactly messages of their kind that are long enough.",
  ["inputs"], "all argument values; all contents up to the stated length",
  "Tests sample a few messages.",
  ["inc/midi/universal_sysex.h", "src/universal_sysex.cpp"], [("universal sysex factories and views", "inc/midi/universal_sysex.h")])
p("C27", "Exclusive message fields are written and read back unchanged",
  "Appending 7, 14, 28 and 32 bit values and device identities to an exclusive message writes the documented number of 7-bit bytes, least significant first where documented, and reading at the same position returns the value for all values. Total size, clearing and equality reflect exactly manufacturer id and data bytes.",
  ["inputs"], "all field values, positions within the bound",
  "Tests sample few values.",
  ["inc/midi/sysex.h", "src/sysex.cpp", "inc/midi/manufacturer.h"], [("sysex7 add_*/make_*", "src/sysex.cpp")])
p("C28", "Jitter reduction time arithmetic is correct across 16-bit wrap-around",
  "The difference of two 16-bit jitter reduction times is the number of 32 us ticks forward from the second to the first, modulo 65536, and the clock counts elapsed ticks modulo 65536. For any sequence of clock and timestamp messages, with wrap-around at any point, the clock follower schedules a message at its send time on the reconstructed sender clock plus the security offset, tracks jitter and grows the offset to at least 1.2 times the jitter. Messages of a sender with a monotonic clock are never scheduled out of order.",
  ["inputs", "histories"], "all time pairs; all histories of clock and timestamp messages up to the stated length",
  "Tests use hand picked sequences.",
  ["src/jitter_reduction_timestamps.cpp", "inc/midi/jitter_reduction_timestamps.h"], [("jr_clock_follower", "src/jitter_reduction_timestamps.cpp")])
p("C29", "Textual form of packets reads back as the same packet",
  "Writing any packet to a text stream gives its words as 8 hex digits each, separated by single spaces, and leaves flags and fill character of the stream unchanged, whatever base they select. Reading such texts, separated by white space, yields equal packets in order without consuming anything behind them; a text that ends or stops being hexadecimal between the words of a packet, or has a word of more than 32 bits, puts the stream into its failed state.",
  ["inputs"], "all packets",
  "Tests sample a few packets.",
  ["src/universal_packet.cpp"], [("stream operators", "src/universal_packet.cpp")])
p("C30", "Named codes are the specification's and omitted arguments mean their documented defaults",
  "Every named constant of the library (statuses, controllers, parameters, sub ids, manufacturer ids, filters, flags, packet types and formats) has the code the MIDI specifications assign to that name, so a message built from it carries that code whatever its other fields are. A message built with trailing arguments left out (device id, request id, path, function block, group, version, extra data) equals the one built with the documented defaults, for all values of the other arguments.",
  ["inputs"], "all named codes, all values of the remaining arguments",
  "Tests use a few names and mostly pass all arguments.",
  ["inc/midi/universal_packet.h", "inc/midi/universal_sysex.h", "inc/midi/manufacturer.h", "inc/midi/capability_inquiry.h", "inc/midi/stream_message.h"], [("named constants", "inc/midi/universal_packet.h"), ("default arguments", "inc/midi/capability_inquiry.h")])
p("C31", "Builds with assertions behave like release builds for every valid use",
  "In a build with the library's assertions enabled, no assertion fails for any arguments within their declared ranges, for any received packet, byte or exclusive message content that is handled by the parsers, collectors, predicates and view conversions, and for any history of such calls; messages, packets and values are the same as in a build without assertions.",
  ["inputs", "histories"], "all argument values, packets and contents, histories and lengths up to the stated bounds",
  "The tests run in a build without assertions, so no test executes one.",
  ["inc/midi/stream_message.h", "inc/midi/sysex.h", "inc/midi/universal_packet.h", "inc/midi/flex_data_message.h", "inc/midi/data_message.h", "inc/midi/extended_data_message.h", "src/capability_inquiry.cpp", "src/sysex.cpp"], [("argument and state assertions", "inc/midi/stream_message.h"), ("field position assertions", "inc/midi/sysex.h")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
