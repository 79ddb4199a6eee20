seed("h31-ui-hint", "C31", "inc/midi/stream_message.h", "(options.direction & options.ui_hint)", "(options.direction == options.ui_hint)",
 "a build with assertions; a bidirectional function block that is primarily used as receiver or sender", "a valid function block info aborts", r'''
// ASSERTS
#include <midi/stream_message.h>
int main() { using namespace midi; function_block_options o; o.direction = 3; o.ui_hint = 1; return make_function_block_info_message(3, o, 0).type() == packet_type::stream ? 0 : 1; }
''')
seed("h31-identity-end", "C31", "src/sysex.cpp", "assert(data_pos + 10 < data.size());", "assert(data_pos + sizeof(device_identity) <= data.size());",
 "a build with assertions; a device identity at the end of a message", "reading the identity aborts", r'''
// ASSERTS
#include <midi/sysex.h>
int main() { using namespace midi; sysex7 s; s.add_device_identity({ 0x410000, 1, 2, 3 }); return s.make_device_identity(0).model == 2 ? 0 : 1; }
''')
seed("h31-last-chunk", "C31", "src/capability_inquiry.cpp", "(number_of_this_chunk <= number_of_chunks));", "(number_of_this_chunk <= number_of_chunks - (number_of_chunks > 127)));",
 "a build with assertions; the last of 128 or more chunks", "building the message aborts", r'''
// ASSERTS
#include <midi/capability_inquiry.h>
int main() { using namespace midi; const uint8_t d[1] = { 1 }; ci::property_exchange::header h; ci::property_exchange::chunk c{ d, 1 }; return ci::make_get_property_data_reply(1, 2, h, 200, 200, c).data.empty() ? 1 : 0; }
''')
seed("h31-text-end", "C31", "inc/midi/flex_data_message.h", "assert((format == packet_format::complete) || (format == packet_format::end) || (text.length() == 12));", "assert((format == packet_format::complete) || !text.empty());",
 "a build with assertions; a text of a multiple of 12 characters closed by an empty packet", "building the message aborts", r'''
// ASSERTS
#include <midi/flex_data_message.h>
int main() { using namespace midi; return make_flex_data_text_message(1, packet_format::end, packet_address::group, 0, 1, 2, "").type() == packet_type::flex_data ? 0 : 1; }
''')
seed("h31-profiles-end", "C31", "src/capability_inquiry.cpp", "assert(sx.data.size() > pos + 1 + num_profiles * sizeof(profile_id));", "assert(sx.data.size() > pos + 2 + num_profiles * sizeof(profile_id));",
 "a build with assertions; reading the disabled profiles of an inquiry reply without trailing bytes", "reading them aborts", r'''
// ASSERTS
#include <midi/capability_inquiry.h>
int main() { using namespace midi; auto m = ci::make_profile_inquiry_reply(1, 2, {}, {}); auto v = ci::as<ci::profile_inquiry_reply_view>(m); return v && v->disabled_profiles().size() == 0 ? 0 : 1; }
''')
