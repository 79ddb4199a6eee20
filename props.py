"""What each check runs: harness entries, bounds per tier, assumptions."""
def J(entry, **kw): return dict(entry=entry, **kw)
PROPS = {}
PROPS["C01"] = dict(harness="c01.cpp", jobs=[J("accessors"), J("constructors"), J("mutators"), J("set_byte_symbolic_index"), J("equality")],
    bounds="none needed: all 4 words of both packets and all written bytes are symbolic", assumptions=["byte position < 16, group < 16, type < 16 (asserted preconditions)"])
PROPS["C02"] = dict(harness="c02.cpp", jobs=[J("up_7_16"), J("up_7_32"), J("up_14_32"), J("down"), J("up_x_y", parts=30, ub=True)],
    bounds="none: all 7/14/16/32-bit values symbolic, all 465 width pairs 1 < x < y <= 32 one path each", assumptions=["source values fit their declared width (7/14 bit; x bit)", "1 < x < y <= 32 (asserted precondition)"])
PROPS["C03"] = dict(harness="c03.cpp", jobs=[J(e, ub=u) for e in ("increments", "pitch", "controller", "bend_times_sensitivity", "conversions") for u in (False, True)],
    bounds="none: all 32-bit operands symbolic", assumptions=["note numbers < 128"])
_c04q = ["velocity_from_double", "velocity_from_float", "controller_from_double", "controller_from_float", "bend_from_double", "bend_from_float", "velocity_reading", "controller_reading", "bend_reading",
         "velocity_roundtrip_low", "controller_roundtrip_low", "pitch79_roundtrip", "pitch725_roundtrip", "pitch79_from_double", "pitch79_from_float", "pitch725_from_double", "pitch725_from_float",
         "increment_from_double", "increment_from_float", "detune_double", "detune_float", "velocity_reading_range"]
PROPS["C04"] = dict(harness="c04.cpp", jobs=[J(e, ub=True) for e in _c04q] + [J("velocity_roundtrip", tiers=("thorough",)), J("velocity_roundtrip_float", tiers=("thorough",)), J("controller_reading_range", tiers=("thorough",)), J("bend_reading_range", tiers=("thorough",)), J("controller_roundtrip_high16", tiers=("thorough",))],
    bounds="none", assumptions=["NaN excluded"])

PROPS["C05"] = dict(harness="c05.cpp", jobs=[J("build"), J("views")], bounds="none: all groups, channels, 7-bit data, 16-bit velocities, 32-bit values; all 2^128 packets for views", assumptions=["group, channel < 16; note, controller, program, data < 128 (declared argument ranges); status of the generic factory 0x80..0xE0"])
PROPS["C06"] = dict(harness="c06.cpp", jobs=[J("build"), J("views")], bounds="none: all arguments of all 20 factories; all 2^128 packets for predicates, getters and views", assumptions=["group, channel < 16; note, controller, bank, index, program < 128 (declared argument ranges)"])
PROPS["C07"] = dict(harness="c07.cpp", jobs=[J("predicates"), J("values"), J("equivalence")], bounds="none: all 2^128 packets", assumptions=["the velocity byte of a MIDI 1 note on has its top bit clear"])
PROPS["C08"] = dict(harness="c08.cpp", jobs=[J("midi1_to_midi2"), J("midi2_to_midi1")], bounds="none: all MIDI 1 and MIDI 2 channel voice packets")
PROPS["C09"] = dict(harness="c09.cpp", jobs=[J("utility"), J("system_messages"), J("views")], bounds="none: all arguments; all 2^128 packets for views", assumptions=["group < 16, data bytes < 128, song position < 16384 (declared argument ranges)"])
PROPS["C10"] = dict(harness="c10.cpp", jobs=[J("build"), J("text"), J("views"), J("any_text")], bounds="none: all arguments, all texts of 0..12 non-NUL bytes, all packets", assumptions=["group, channel < 16; channel 0 unless channel addressed; texts up to 12 bytes, exactly 12 for start/continue packets (asserted preconditions)"])
PROPS["C11"] = dict(harness="c11.cpp", jobs=[J(e) for e in ("endpoint_discovery", "endpoint_info", "identity", "stream_configuration", "function_block_discovery", "function_block_info", "header", "views")], bounds="none: all arguments; all 2^128 packets for views", assumptions=["arguments within declared and asserted ranges (filters within their masks, function block < 32 or 0xFF, directions 1..3, groups and group counts < 16, protocol 1..2)"])
PROPS["C12"] = dict(harness="c12.cpp", jobs=[J("endpoint_name", params=dict(N=100), thorough=dict(N=300), parts=8), J("product_instance_id"), J("function_block_name", params=dict(N=100), thorough=dict(N=300), parts=8), J("endpoint_name_long", parts=38, cost=6, max_steps=100000000), J("function_block_name_long", parts=38, cost=6, max_steps=100000000), J("single"), J("any_name")],
    bounds=dict(quick="names of 0..100 arbitrary non-NUL bytes and of 76 lengths around powers of two up to 65620 (partly symbolic), product instance ids of 0..16 ASCII characters; all packets for reading", thorough="names of 0..300 arbitrary non-NUL bytes and of 76 lengths around powers of two up to 65620 (partly symbolic), product instance ids of 0..16 ASCII characters; all packets for reading"), outside="longer names", assumptions=["names contain no NUL", "product instance ids are 7-bit and at most 16 characters (asserted precondition)"])
PROPS["C13"] = dict(harness="c13.cpp", jobs=[J("history_packets", params=dict(N=7), thorough=dict(N=9), cost=9), J("history_sysex_callback", params=dict(N=7), thorough=dict(N=8), cost=9), J("history_disabled", params=dict(N=6), thorough=dict(N=7), cost=5),
        J("reset_is_fresh", params=dict(N=4, M=4), thorough=dict(N=5, M=6), cost=5), J("chunks", parts=3, params=dict(N=1, K=3, M=1), thorough=dict(N=2, K=3, M=2), cost=7), J("chunks", parts=5, params=dict(N=0, K=5, M=0)), J("one_call", parts=7, cost=9, max_steps=100000000), J("many", parts=7, max_steps=100000000), J("regroup", params=dict(N=2, M=3), thorough=dict(N=3, M=3))],
    bounds=dict(quick="all histories of 7 bytes (6 with callbacks switched before each byte; 4 + reset + 4; blocks of 0..4 bytes in one call; 2 + a new group + 4), streams of about 1000 messages with symbolic data in running status and without, streams of 7 lengths from 32768 to 131075 bytes (partly symbolic) in one call, fed in one or two calls, all groups, starting from a new parser", thorough="all histories of 8 bytes (7 with callbacks switched; 5 + reset + 6; blocks up to 4 bytes)"), outside="other longer histories; changing the group in the middle of a message", assumptions=["group < 16", "packet callback set (documented requirement)"])
PROPS["C14"] = dict(harness="c14.cpp", jobs=[J("packets_any_history", params=dict(N=8), thorough=dict(N=10), cost=5), J("packets_lengths", parts=8, params=dict(L=26, M=8), thorough=dict(L=60, M=20), cost=3), J("packets_huge", parts=38, cost=8, max_steps=100000000), J("messages_huge", parts=38, cost=8, max_steps=100000000), J("packets_long", params=dict(L=1100), thorough=dict(L=1900)), J("packets_many", parts=3, max_steps=100000000), J("messages_many", parts=3, max_steps=100000000),
        J("messages_any_history", params=dict(N=7), thorough=dict(N=8), cost=5), J("messages_lengths", parts=8, params=dict(L=12, M=6), thorough=dict(L=30, M=12), cost=3), J("messages_disabled", parts=6, cost=9), J("messages_long", params=dict(L=1024), cost=4), J("messages_lengths", parts=4, params=dict(L=8, M=5), cfg="custom"), J("messages_lengths", parts=4, params=dict(L=8, M=5), cfg="pmr")],
    bounds=dict(quick="all histories of 8 bytes (packets) or 7 bytes (messages); exclusives of 0..25 bytes (packets) or 0..11 bytes (messages) with a real time byte in any gap, ended or aborted by any status byte and followed by another exclusive of up to 7 bytes; single exclusives of 1024..1102 bytes sequences of 300 exclusives; exclusives of 38 lengths around powers of two up to 65600 bytes (first, last and some boundary bytes symbolic); custom and pmr allocator builds with exclusives of 0..7 bytes", thorough="all histories of 8 (packets) or 5 (messages) bytes; exclusives of 0..59 (packets) or 0..29 (messages) bytes, followed by another of up to 19; single exclusives up to 1902 bytes"), outside="other lengths, more than one real time byte inside a long exclusive", assumptions=["group < 16"])
PROPS["C15"] = dict(harness="c15.cpp", jobs=[J("to_bytes"), J("round_trip"), J("from_bytes"), J("sysex_round_trip", thorough=dict(P=6))],
    bounds=dict(quick="none for packets: all 2^128; parsing back after up to 2 arbitrary bytes; exclusives of 1..3 packets", thorough="as quick, exclusives of 1..6 packets"), outside="parser histories longer than 2 bytes before the message", assumptions=["data bytes < 128 for the round trip", "exclusive packets of a sequence are full except the last"])
PROPS["C16"] = dict(harness="c16.cpp", jobs=[J("build7", ub=True), J("build8", ub=True), J("append"), J("defaults"), J("views", ub=True)], bounds="none: all groups, stream ids, formats, sizes and payloads; all 2^128 packets for views", assumptions=["group < 16; at most 6 (7-bit) or 13 (8-bit) payload bytes (asserted preconditions)"])
PROPS["C17"] = dict(harness="c17.cpp", jobs=[J("seven_bit", parts=4, params=dict(L=40), thorough=dict(L=200)), J("eight_bit", parts=4, params=dict(L=60), thorough=dict(L=200)), J("seven_bit", parts=2, params=dict(L=14), cfg="custom"), J("eight_bit", parts=2, params=dict(L=30), cfg="pmr"), J("seven_bit_huge", parts=38, cost=6, max_steps=100000000), J("eight_bit_huge", parts=38, cost=6, max_steps=100000000)],
    bounds=dict(quick="all messages with 0..39 (7-bit) or 0..59 (8-bit) data bytes, all valid manufacturer ids, groups, stream ids; messages of 38 lengths around powers of two up to 65600 bytes (data partly symbolic)", thorough="all messages with 0..199 data bytes, all valid manufacturer ids, groups, stream ids"), outside="longer messages", assumptions=["manufacturer id is a 1-byte id 0x010000..0x7F0000 or a 3-byte id 0x000001..0x007F7F with 7-bit bytes", "7-bit data for 7-bit packets"])
PROPS["C18"] = dict(harness="c18.cpp", jobs=[J("history7", parts=8, params=dict(N=3), thorough=dict(N=4)), J("history8", parts=8, params=dict(N=2), thorough=dict(N=3)), J("deep7", parts=6, params=dict(N=6), thorough=dict(N=7)), J("deep8", parts=9, params=dict(N=5), thorough=dict(N=6)), J("mixed7", parts=6, params=dict(N=4), thorough=dict(N=5)), J("mixed8", parts=6, params=dict(N=3), thorough=dict(N=4)),
        J("sent7", parts=4, params=dict(L=30), thorough=dict(L=80)), J("sent8", parts=4, params=dict(L=45), thorough=dict(L=100)), J("long7"), J("long8"), J("huge7", parts=38, cost=6, max_steps=100000000), J("huge8", parts=38, cost=6, max_steps=100000000), J("callbacks"), J("many7", parts=3, max_steps=100000000), J("many8", parts=3, max_steps=100000000), J("sent7", parts=2, params=dict(L=10), cfg="custom"), J("sent8", parts=2, params=dict(L=20), cfg="pmr")],
    bounds=dict(quick="all histories of 3 (7-bit) or 2 (8-bit) exclusive packets of any format, size, payload and stream id; histories of 6 (5) steps out of packets of one size in two streams, empty last packets and resets; histories of 4 (3) steps out of packets of 4 sizes, any foreign packet, reset; messages of 0..29 (0..44) bytes packed by the library after any exclusive packet, twice, with foreign packets interleaved; 300 messages in a row; single messages of about 400 bytes and of 38 lengths around powers of two up to 65600 bytes, after an unfinished one and followed by a short one", thorough="histories of 4 (3) packets; 5 (4) mixed steps; messages of 0..79 (0..99) bytes")
    , outside="longer histories", assumptions=["all packets of one group", "payload bytes of 7-bit packets < 128"])
PROPS["C19"] = dict(harness="c19.cpp", jobs=[J("changed7", parts=12), J("changed8", parts=12), J("limited7", parts=8, params=dict(N=2, LIM=8), thorough=dict(N=2, LIM=16)), J("limited8", parts=8, params=dict(N=2, LIM=8), thorough=dict(N=2, LIM=16)), J("exact7", parts=8, params=dict(LIM=20), thorough=dict(LIM=60)), J("exact8", parts=8, params=dict(LIM=20), thorough=dict(LIM=60)), J("large_limit7"), J("large_limit8"), J("many7", parts=3, max_steps=100000000), J("many8", parts=3, max_steps=100000000), J("huge_limit7", parts=38, cost=6, max_steps=100000000), J("huge_limit8", parts=38, cost=6, max_steps=100000000), J("exact7", parts=2, params=dict(LIM=10), cfg="custom"), J("exact8", parts=2, params=dict(LIM=10), cfg="pmr")],
    bounds=dict(quick="limits 1..8, set on a new collector, after a larger message or lowered from another limit, then 2 arbitrary exclusive packets (4 sizes each) and a message; messages of limit, limit + 1 and limit + 2 bytes in packets of any constant size for limits 1..20, twice; limits 300..312; 12 limits set in the middle of a message; 280 messages in a row under limits 10, 30, 50; 38 limits around powers of two up to 65600 with messages of that size, one more, and without limit", thorough="limits 1..16 and 1..60")
    , outside="longer histories, other limits", assumptions=["all packets of one group", "payload bytes of 7-bit packets < 128", "where the limit is changed in the middle of a message, at least one data byte follows"])
PROPS["C20"] = dict(harness="c20.cpp", jobs=[J(e, parts=4, ub=True, params=dict(L=36), thorough=dict(L=60)) for e in ("management_views", "profile_views", "property_views", "process_views")] + [J(e, parts=4, cost=9, max_steps=100000000) for e in ("management_views_large", "profile_views_large", "property_views_large")],
    bounds=dict(quick="all contents (arbitrary bytes and manufacturer) of messages with 0..35, 149..151 and 290 data bytes (the larger ones with counts and lengths that are 0, 2, near the largest that fits, or do not fit), all 24 kinds of view", thorough="all contents of messages with 0..59 data bytes"), outside="longer messages", assumptions=[])
PROPS["C21"] = dict(harness="c21.cpp", jobs=[J("discovery"), J("endpoint_information", params=dict(S=10), thorough=dict(S=60)), J("acknowledge", params=dict(S=10), thorough=dict(S=60)), J("invalidate"), J("addressing"), J("endpoint_information_long", parts=16, cost=3, max_steps=100000000), J("acknowledge_long", parts=16, cost=3, max_steps=100000000)],
    bounds=dict(quick="all field values; texts and data of 0..9, 127..129 and 300 bytes, and of 16 lengths around powers of two up to 16383 (partly symbolic)", thorough="texts and data of 0..59, 127..129 and 300 bytes"), outside="other lengths", assumptions=["muids < 2^28, 7-bit bytes, 14-bit family and model, 28-bit revision (asserted argument ranges)"])
PROPS["C22"] = dict(harness="c22.cpp", jobs=[J("inquiry"), J("inquiry_reply", params=dict(P=4), thorough=dict(P=7)), J("inquiry_reply_many"), J("single"), J("details", params=dict(S=10), thorough=dict(S=60)), J("specific_data", params=dict(S=10), thorough=dict(S=60)), J("specific_data_large", params=dict(Z=2), thorough=dict(Z=3)), J("details_long", parts=16, cost=3, max_steps=100000000), J("specific_data_long", parts=16, cost=3, max_steps=100000000)],
    bounds=dict(quick="all field values; 0..3 profiles in each list and 4 longer lists; data of 0..9, 127..129, 300 bytes and of 16 lengths around powers of two up to 16383; specific data of 16384 and 65539 bytes (first and last symbolic)", thorough="0..6 profiles in each list; data of 0..59, 127..129, 300 bytes; specific data also of 2097153 bytes"), outside="other lengths", assumptions=["7-bit bytes, muids < 2^28, 14-bit channel counts (asserted argument ranges)"])
PROPS["C24"] = dict(harness="c24.cpp", jobs=[J("capabilities"), J("report")], bounds="none: all argument values", assumptions=["7-bit bytes, muids < 2^28 (asserted argument ranges)"])
PROPS["C23"] = dict(harness="c23.cpp", jobs=[J("capabilities"), J("raw_data", parts=7, params=dict(S=6), thorough=dict(S=16)), J("chunks", params=dict(S=6), thorough=dict(S=40)), J("raw_data_long", parts=16, cost=3, max_steps=100000000), J("chunks_long", parts=16, cost=3, max_steps=100000000), J("resources", parts=6, params=dict(T=3), thorough=dict(T=5)), J("statuses", parts=8, params=dict(T=4), thorough=dict(T=7))],
    bounds=dict(quick="all field values; headers and chunks of 0..5, 127..129 and 300 bytes in all combinations, long headers, chunks or both of 16 lengths up to 16383; resource, command, id texts of 0..2 characters, messages of 0..3 characters, all statuses 100..999", thorough="headers and chunks of 0..15 (0..39 without header), 127..129 and 300 bytes; texts of 0..4, messages of 0..6 characters"), outside="other lengths; status codes outside 100..999", assumptions=["muids < 2^28, 7-bit bytes", "this chunk <= number of chunks unless that is 0, data only from chunk 1 on, header only in chunks 0 and 1 (asserted or validated preconditions)", "header texts need no JSON escaping"])
PROPS["C25"] = dict(harness="c25.cpp", jobs=[J("key_text", ub=True, params=dict(T=6), thorough=dict(T=12)), J("options", parts=3, ub=True, params=dict(O=3), thorough=dict(O=5)), J("option_values", parts=8, ub=True, params=dict(V=8), thorough=dict(V=16)), J("key_int", ub=True, parts=7), J("long_values", ub=True, parts=8), J("many_options", parts=9)],
    bounds=dict(quick="keys and texts of 0..5 characters; up to 2 options with values up to 4 (first) and 2 (second) characters; option values of 0..7 characters; values, keys and texts of 29 lengths from 8 to 257 characters that are digits except for one character; up to 8 options; integers in 14 ranges covering all digit counts up to 4, both signs, the extremes and carries around 10^5, 10^8, 10^9", thorough="texts of 0..11 characters, option values of 0..15 characters, up to 6 and 4 characters in two options"), outside="longer texts, integers outside the ranges", assumptions=["texts need no JSON escaping (printable ASCII without quote and backslash)"])
PROPS["C26"] = dict(harness="c26.cpp", jobs=[J("request"), J("reply"), J("any_content", parts=2, ub=True, params=dict(L=20), thorough=dict(L=60))], bounds=dict(quick="all argument values; all contents of messages with 0..19, 64, 127..129, 255..257, 268, 270 and 300 data bytes", thorough="all argument values; all contents of messages with 0..59 data bytes"), outside="longer messages", assumptions=["7-bit device id, valid 1-byte or 3-byte manufacturer id, 14-bit family and model, 28-bit revision (asserted argument ranges)"])
PROPS["C27"] = dict(harness="c27.cpp", jobs=[J("fields", ub=True), J("whole7"), J("whole8"), J("valid"), J("clear_large"), J("far7", parts=8, max_steps=100000000), J("far8", parts=8, max_steps=100000000), J("fields", cfg="custom"), J("fields", cfg="pmr"), J("whole7", cfg="custom"), J("whole8", cfg="pmr")], bounds="none for values; fields after 0..3 and before 0..2 other bytes; whole messages of 0..3 bytes and of 29 lengths from 7 to 65537 bytes (one byte changed, appended, or fields behind them); cleared messages around the 16384 byte threshold", outside="other positions and lengths", assumptions=["values within their declared widths (asserted)"])
PROPS["C28"] = dict(harness="c28.cpp", jobs=[J("difference"), J("messages"), J("many", ext_ms=0, parts=6, max_steps=100000000), J("clock_now", ext_ms=0, params=dict(RANGE=50)), J("follower", ext_ms=0, parts=16, params=dict(N=3), thorough=dict(N=4)), J("order", ext_ms=0, parts=32, params=dict(N=5), tiers=("quick",)), J("order", ext_ms=0, parts=64, params=dict(N=6), tiers=("thorough",)), J("steady_sender", ext_ms=0, parts=16, params=dict(N=4), tiers=("quick",)), J("steady_sender", ext_ms=0, parts=32, params=dict(N=5), tiers=("thorough",))],
    bounds=dict(quick="timestamps: none; clock: readings up to 2^50 ns (13 days) after the first; follower: all histories of 3 operations (clock, message, set offset, reset) and a message, order 4, exact sender 5 clocks or messages, 300 clocks and messages at fixed steps, system times up to 2^43 ns (2.4 h) apart, any 16-bit timestamps", thorough="as quick, with follower histories of 4 operations, order 6, exact sender 7"),
    outside="longer histories; system times outside the range (about 73 years from the epoch)", assumptions=["messages are received after the follower was created", "order: receive times increase and the sender sends a clock at least every 65535 ticks"])
PROPS["C29"] = dict(harness="c29.cpp", jobs=[J("text_write", cfg="ios", parts=16), J("text_read", cfg="ios", parts=16), J("text_truncated", cfg="ios", parts=16), J("text_overlong", cfg="ios", parts=16)], 
    bounds="all packets; streams with any fill character and any combination of base, letter case, showpos and right adjustment; reading two packets of which the second is a MIDI 1 or MIDI 2 channel voice packet, separated by newline, space or tab and newline, any base; truncation after any number of words, followed by nothing, a space or a space and any character that is no hex digit; words of 9 hex digits at any position",
    outside="streams with left or internal adjustment or showbase; locales other than C; truncation within a word (indistinguishable from a shorter number)",
    assumptions=["the streams of the C++ standard library are modelled (harness/ios_env.cpp: C locale, integer formatting and parsing; the other stream code is libstdc++'s); counterexamples and sampled paths are replayed against libstdc++ itself"])
NOT_APPLICABLE = {}
PROPS["C30"] = dict(harness="c30.cpp", jobs=[J("names_status"), J("names_controller"), J("names_sysex"), J("names_ci"), J("omitted_packet"), J("omitted_stream"), J("omitted_ci"), J("omitted_property", parts=9)],
    bounds="none for values: all codes of the tables (symbolic index) and all other argument values; property exchange texts are fixed", assumptions=["arguments within their declared ranges"])

# the same entries, smaller, with the library's assertions compiled in
def _A(c, *es, **kw): return [dict(J(e, **kw), harness="c%02d.cpp" % c, cfg="assert") for e in es]
PROPS["C31"] = dict(harness="c01.cpp", jobs=
    _A(1, "accessors", "constructors", "mutators", "set_byte_symbolic_index", "equality") + _A(2, "up_7_16", "up_7_32", "up_14_32", "down") + _A(2, "up_x_y", parts=6) + _A(3, "increments", "pitch", "controller", "conversions")
    + _A(5, "build", "views") + _A(6, "build", "views") + _A(7, "predicates", "values", "equivalence") + _A(8, "midi1_to_midi2", "midi2_to_midi1") + _A(9, "utility", "system_messages", "views") + _A(10, "build", "text", "views", "any_text")
    + _A(11, "endpoint_discovery", "endpoint_info", "identity", "stream_configuration", "function_block_discovery", "function_block_info", "header", "views") + _A(12, "endpoint_name", "function_block_name", parts=4, params=dict(N=45)) + _A(12, "product_instance_id")
    + _A(13, "history_packets", "history_sysex_callback", "history_disabled", params=dict(N=4)) + _A(14, "packets_any_history", params=dict(N=5)) + _A(14, "packets_lengths", "messages_lengths", parts=4, params=dict(L=10, M=4))
    + _A(15, "to_bytes", "round_trip", "from_bytes", "sysex_round_trip") + _A(16, "build7", "build8", "append", "defaults", "views") + _A(17, "seven_bit", "eight_bit", parts=4, params=dict(L=30)) + _A(17, "seven_bit_huge", "eight_bit_huge", parts=38, max_steps=100000000)
    + _A(18, "history7", "history8", parts=8, params=dict(N=2)) + _A(18, "sent7", "sent8", parts=4, params=dict(L=20)) + _A(19, "exact7", "exact8", parts=4, params=dict(LIM=8))
    + _A(20, "management_views", "profile_views", "property_views", "process_views", parts=4, params=dict(L=36)) + _A(21, "discovery", "invalidate", "addressing") + _A(21, "endpoint_information", "acknowledge", params=dict(S=6)) + _A(21, "endpoint_information_long", "acknowledge_long", parts=16, max_steps=100000000)
    + _A(22, "inquiry", "single", "inquiry_reply_many") + _A(22, "inquiry_reply", params=dict(P=3)) + _A(22, "details", "specific_data", params=dict(S=6))
    + _A(23, "capabilities") + _A(23, "raw_data", parts=7, params=dict(S=3)) + _A(23, "chunks", params=dict(S=4)) + _A(23, "raw_data_long", "chunks_long", parts=16, max_steps=100000000) + _A(24, "capabilities", "report") + _A(26, "request", "reply") + _A(26, "any_content", parts=2, params=dict(L=20))
    + _A(27, "fields", "whole7", "whole8", "valid", "clear_large") + _A(28, "difference", "messages") + _A(28, "follower", ext_ms=0, parts=8, params=dict(N=2)) + _A(30, "omitted_packet", "omitted_stream", "omitted_ci") + _A(30, "omitted_property", parts=9),
    bounds="as C01..C30 (quick) with assertions compiled in, some of them smaller: names of 0..44 bytes, byte histories of 4..5, exclusives of 0..29 bytes and 38 lengths up to 65600, collector histories of 2 packets, MIDI-CI contents of 0..35 bytes, data of up to 5 bytes and 16 lengths up to 16383",
    outside="longer histories and other lengths; floating point and text stream functions (they assert nothing)", assumptions=["the assumptions of C01..C30, which include the asserted argument ranges"])
