// Codes of the MIDI 1.0, UMP/MIDI 2.0 protocol, MIDI-CI specifications and the MIDI Association's list of manufacturers, written down once; not generated from /repo.
static const code codes_utility_status[] = {
    { midi::utility_status::noop, 0x0 }, { midi::utility_status::jr_clock, 0x10 }, { midi::utility_status::jr_timestamp, 0x20 },
};
static const code codes_system_status[] = {
    { midi::system_status::mtc_quarter_frame, 0xf1 }, { midi::system_status::song_position, 0xf2 }, { midi::system_status::song_select, 0xf3 }, { midi::system_status::tune_request, 0xf6 }, { midi::system_status::clock, 0xf8 }, { midi::system_status::start, 0xfa },
    { midi::system_status::cont, 0xfb }, { midi::system_status::stop, 0xfc }, { midi::system_status::active_sense, 0xfe }, { midi::system_status::reset, 0xff },
};
static const code codes_midi1_channel_voice_status[] = {
    { midi::midi1_channel_voice_status::note_off, 0x80 }, { midi::midi1_channel_voice_status::note_on, 0x90 }, { midi::midi1_channel_voice_status::poly_pressure, 0xa0 }, { midi::midi1_channel_voice_status::control_change, 0xb0 }, { midi::midi1_channel_voice_status::program_change, 0xc0 }, { midi::midi1_channel_voice_status::channel_pressure, 0xd0 },
    { midi::midi1_channel_voice_status::pitch_bend, 0xe0 },
};
static const code codes_data_status[] = {
    { midi::data_status::sysex7_complete, 0x0 }, { midi::data_status::sysex7_start, 0x10 }, { midi::data_status::sysex7_continue, 0x20 }, { midi::data_status::sysex7_end, 0x30 },
};
static const code codes_channel_voice_status[] = {
    { midi::channel_voice_status::registered_per_note_controller, 0x0 }, { midi::channel_voice_status::assignable_per_note_controller, 0x10 }, { midi::channel_voice_status::registered_controller, 0x20 }, { midi::channel_voice_status::assignable_controller, 0x30 }, { midi::channel_voice_status::relative_registered_controller, 0x40 }, { midi::channel_voice_status::relative_assignable_controller, 0x50 },
    { midi::channel_voice_status::per_note_pitch_bend, 0x60 }, { midi::channel_voice_status::note_off, 0x80 }, { midi::channel_voice_status::note_on, 0x90 }, { midi::channel_voice_status::poly_pressure, 0xa0 }, { midi::channel_voice_status::control_change, 0xb0 }, { midi::channel_voice_status::program_change, 0xc0 },
    { midi::channel_voice_status::channel_pressure, 0xd0 }, { midi::channel_voice_status::pitch_bend, 0xe0 }, { midi::channel_voice_status::per_note_management, 0xf0 },
};
static const code codes_extended_data_status[] = {
    { midi::extended_data_status::sysex8_complete, 0x0 }, { midi::extended_data_status::sysex8_start, 0x10 }, { midi::extended_data_status::sysex8_continue, 0x20 }, { midi::extended_data_status::sysex8_end, 0x30 }, { midi::extended_data_status::mixed_data_set_header, 0x80 }, { midi::extended_data_status::mixed_data_set_payload, 0x90 },
};
static const code codes_protocol[] = {
    { midi::protocol::midi1, 0x1 }, { midi::protocol::midi2, 0x2 },
};
static const code codes_extensions[] = {
    { midi::extensions::jitter_reduction_transmit, 0x1 }, { midi::extensions::jitter_reduction_receive, 0x2 },
};
static const code codes_stream_status[] = {
    { midi::stream_status::endpoint_discovery, 0x0 }, { midi::stream_status::endpoint_info, 0x1 }, { midi::stream_status::device_identity, 0x2 }, { midi::stream_status::endpoint_name, 0x3 }, { midi::stream_status::product_instance_id, 0x4 }, { midi::stream_status::stream_configuration_request, 0x5 },
    { midi::stream_status::stream_configuration_notify, 0x6 }, { midi::stream_status::function_block_discovery, 0x10 }, { midi::stream_status::function_block_info, 0x11 }, { midi::stream_status::function_block_name, 0x12 },
};
static const code codes_control_change[] = {
    { midi::control_change::bank_select_msb, 0x0 }, { midi::control_change::modulation_wheel, 0x1 }, { midi::control_change::breath_controller, 0x2 }, { midi::control_change::foot_controller, 0x4 }, { midi::control_change::portamento_time, 0x5 }, { midi::control_change::data_entry_msb, 0x6 },
    { midi::control_change::volume, 0x7 }, { midi::control_change::balance, 0x8 }, { midi::control_change::pan, 0xa }, { midi::control_change::expression_controller, 0xb }, { midi::control_change::effect_control_1, 0xc }, { midi::control_change::effect_control_2, 0xd },
    { midi::control_change::general_purpose_1, 0x10 }, { midi::control_change::general_purpose_2, 0x11 }, { midi::control_change::general_purpose_3, 0x12 }, { midi::control_change::general_purpose_4, 0x13 }, { midi::control_change::bank_select, 0x20 }, { midi::control_change::bank_select_lsb, 0x20 },
    { midi::control_change::lsb, 0x20 }, { midi::control_change::data_entry_lsb, 0x26 }, { midi::control_change::damper_pedal, 0x40 }, { midi::control_change::sustain, 0x40 }, { midi::control_change::portamento_on_off, 0x41 }, { midi::control_change::sustenuto, 0x42 },
    { midi::control_change::soft_pedal, 0x43 }, { midi::control_change::legato_footswitch, 0x44 }, { midi::control_change::hold_2, 0x45 }, { midi::control_change::sound_controller_1, 0x46 }, { midi::control_change::sound_variation, 0x46 }, { midi::control_change::sound_controller_2, 0x47 },
    { midi::control_change::timbre, 0x47 }, { midi::control_change::harmonic_intensity, 0x47 }, { midi::control_change::sound_controller_3, 0x48 }, { midi::control_change::release_time, 0x48 }, { midi::control_change::sound_controller_4, 0x49 }, { midi::control_change::attack_time, 0x49 },
    { midi::control_change::sound_controller_5, 0x4a }, { midi::control_change::brightness, 0x4a }, { midi::control_change::sound_controller_6, 0x4b }, { midi::control_change::decay_time, 0x4b }, { midi::control_change::sound_controller_7, 0x4c }, { midi::control_change::vibrato_rate, 0x4c },
    { midi::control_change::sound_controller_8, 0x4d }, { midi::control_change::vibrato_depth, 0x4d }, { midi::control_change::sound_controller_9, 0x4e }, { midi::control_change::vibrato_delay, 0x4e }, { midi::control_change::sound_controller_10, 0x4f }, { midi::control_change::general_purpose_5, 0x50 },
    { midi::control_change::general_purpose_6, 0x51 }, { midi::control_change::general_purpose_7, 0x52 }, { midi::control_change::general_purpose_8, 0x53 }, { midi::control_change::portamento_control, 0x54 }, { midi::control_change::hi_res_velocity_prefix, 0x58 }, { midi::control_change::effects_1_depth, 0x5b },
    { midi::control_change::reverb_send_level, 0x5b }, { midi::control_change::effects_2_depth, 0x5c }, { midi::control_change::effects_3_depth, 0x5d }, { midi::control_change::chorus_send_level, 0x5d }, { midi::control_change::effects_4_depth, 0x5e }, { midi::control_change::effects_5_depth, 0x5f },
    { midi::control_change::data_increment, 0x60 }, { midi::control_change::data_decrement, 0x61 }, { midi::control_change::nrpn_lsb, 0x62 }, { midi::control_change::nrpn_msb, 0x63 }, { midi::control_change::rpn_lsb, 0x64 }, { midi::control_change::rpn_msb, 0x65 },
    { midi::control_change::all_sound_off, 0x78 }, { midi::control_change::reset_all_controllers, 0x79 }, { midi::control_change::local_control, 0x7a }, { midi::control_change::all_notes_off, 0x7b }, { midi::control_change::omni_mode_off, 0x7c }, { midi::control_change::omni_mode_on, 0x7d },
    { midi::control_change::mono_mode_on, 0x7e }, { midi::control_change::poly_mode_off, 0x7e }, { midi::control_change::mono_mode_off, 0x7f }, { midi::control_change::poly_mode_on, 0x7f },
};
static const code codes_registered_parameter_number[] = {
    { midi::registered_parameter_number::pitch_bend_sensitivity, 0x0 }, { midi::registered_parameter_number::fine_tuning, 0x1 }, { midi::registered_parameter_number::coarse_tuning, 0x2 }, { midi::registered_parameter_number::tuning_program_select, 0x3 }, { midi::registered_parameter_number::tuning_bank_select, 0x4 }, { midi::registered_parameter_number::per_note_pitch_bend_sensitivity, 0x7 },
};
static const code codes_registered_per_note_controller[] = {
    { midi::registered_per_note_controller::modulation, 0x1 }, { midi::registered_per_note_controller::breath, 0x2 }, { midi::registered_per_note_controller::pitch_7_25, 0x3 }, { midi::registered_per_note_controller::volume, 0x7 }, { midi::registered_per_note_controller::balance, 0x8 }, { midi::registered_per_note_controller::pan, 0xa },
    { midi::registered_per_note_controller::expression, 0xb }, { midi::registered_per_note_controller::sound_controller_1, 0x46 }, { midi::registered_per_note_controller::sound_variation, 0x46 }, { midi::registered_per_note_controller::sound_controller_2, 0x47 }, { midi::registered_per_note_controller::timbre, 0x47 }, { midi::registered_per_note_controller::harmonic_intensity, 0x47 },
    { midi::registered_per_note_controller::sound_controller_3, 0x48 }, { midi::registered_per_note_controller::release_time, 0x48 }, { midi::registered_per_note_controller::sound_controller_4, 0x49 }, { midi::registered_per_note_controller::attack_time, 0x49 }, { midi::registered_per_note_controller::sound_controller_5, 0x4a }, { midi::registered_per_note_controller::brightness, 0x4a },
    { midi::registered_per_note_controller::sound_controller_6, 0x4b }, { midi::registered_per_note_controller::decay_time, 0x4b }, { midi::registered_per_note_controller::sound_controller_7, 0x4c }, { midi::registered_per_note_controller::vibrato_rate, 0x4c }, { midi::registered_per_note_controller::sound_controller_8, 0x4d }, { midi::registered_per_note_controller::vibrato_depth, 0x4d },
    { midi::registered_per_note_controller::sound_controller_9, 0x4e }, { midi::registered_per_note_controller::vibrato_delay, 0x4e }, { midi::registered_per_note_controller::sound_controller_10, 0x4f }, { midi::registered_per_note_controller::effects_1_depth, 0x5b }, { midi::registered_per_note_controller::reverb_send_level, 0x5b }, { midi::registered_per_note_controller::effects_2_depth, 0x5c },
    { midi::registered_per_note_controller::effects_3_depth, 0x5d }, { midi::registered_per_note_controller::chorus_send_level, 0x5d }, { midi::registered_per_note_controller::effects_4_depth, 0x5e }, { midi::registered_per_note_controller::effects_5_depth, 0x5f },
};
static const code codes_universal_sysex_type[] = {
    { midi::universal_sysex::type::sample_dump_header, 0x7e01 }, { midi::universal_sysex::type::sample_data_packet, 0x7e02 }, { midi::universal_sysex::type::sample_dump_request, 0x7e03 }, { midi::universal_sysex::type::midi_time_code_non_real_time, 0x7e04 }, { midi::universal_sysex::type::sample_dump_extensions, 0x7e05 }, { midi::universal_sysex::type::general_information, 0x7e06 },
    { midi::universal_sysex::type::file_dump, 0x7e07 }, { midi::universal_sysex::type::midi_tuning_non_real_time, 0x7e08 }, { midi::universal_sysex::type::general_midi, 0x7e09 }, { midi::universal_sysex::type::downloadable_sounds, 0x7e0a }, { midi::universal_sysex::type::file_reference_message, 0x7e0b }, { midi::universal_sysex::type::midi_visual_control, 0x7e0c },
    { midi::universal_sysex::type::capability_inquiry, 0x7e0d }, { midi::universal_sysex::type::end_of_file, 0x7e7b }, { midi::universal_sysex::type::wait, 0x7e7c }, { midi::universal_sysex::type::cancel, 0x7e7d }, { midi::universal_sysex::type::nak, 0x7e7e }, { midi::universal_sysex::type::ack, 0x7e7f },
    { midi::universal_sysex::type::midi_time_code_real_time, 0x7f01 }, { midi::universal_sysex::type::midi_show_control, 0x7f02 }, { midi::universal_sysex::type::notation_information, 0x7f03 }, { midi::universal_sysex::type::device_control, 0x7f04 }, { midi::universal_sysex::type::real_time_mtc_cueing, 0x7f05 }, { midi::universal_sysex::type::midi_machine_control_commands, 0x7f06 },
    { midi::universal_sysex::type::midi_machine_control_responses, 0x7f07 }, { midi::universal_sysex::type::midi_tuning_real_time, 0x7f08 }, { midi::universal_sysex::type::none, 0x0 },
};
static const code codes_universal_sysex_subtype[] = {
    { midi::universal_sysex::subtype::identity_request, 0x1 }, { midi::universal_sysex::subtype::identity_reply, 0x2 }, { midi::universal_sysex::subtype::gm_1_system_on, 0x1 }, { midi::universal_sysex::subtype::gm_system_off, 0x2 }, { midi::universal_sysex::subtype::gm_2_system_on, 0x3 }, { midi::universal_sysex::subtype::mtc_full_message, 0x1 },
    { midi::universal_sysex::subtype::mtc_user_bits, 0x2 },
};
static const code codes_ci[] = {
    { midi::ci::message_version_1, 0x1 }, { midi::ci::message_version_2, 0x2 }, { midi::ci::version, 0x2 }, { midi::ci::broadcast_muid, 0xfffffff },
};
static const code codes_ci_category[] = {
    { midi::ci::category::profile_configuration, 0x4 }, { midi::ci::category::property_exchange, 0x8 }, { midi::ci::category::process_inquiry, 0x10 },
};
static const code codes_ci_subtype[] = {
    { midi::ci::subtype::discovery_inquiry, 0x70 }, { midi::ci::subtype::discovery_reply, 0x71 }, { midi::ci::subtype::endpoint_information_inquiry, 0x72 }, { midi::ci::subtype::endpoint_information_reply, 0x73 }, { midi::ci::subtype::ack, 0x7d }, { midi::ci::subtype::invalidate_muid, 0x7e },
    { midi::ci::subtype::nak, 0x7f }, { midi::ci::subtype::profile_inquiry, 0x20 }, { midi::ci::subtype::profile_inquiry_reply, 0x21 }, { midi::ci::subtype::set_profile_on, 0x22 }, { midi::ci::subtype::set_profile_off, 0x23 }, { midi::ci::subtype::profile_enabled, 0x24 },
    { midi::ci::subtype::profile_disabled, 0x25 }, { midi::ci::subtype::profile_added, 0x26 }, { midi::ci::subtype::profile_removed, 0x27 }, { midi::ci::subtype::profile_details_inquiry, 0x28 }, { midi::ci::subtype::profile_details_reply, 0x29 }, { midi::ci::subtype::profile_specific_data, 0x2f },
    { midi::ci::subtype::property_exchange_capabilities_inquiry, 0x30 }, { midi::ci::subtype::property_exchange_capabilities_reply, 0x31 }, { midi::ci::subtype::get_property_data_inquiry, 0x34 }, { midi::ci::subtype::get_property_data_reply, 0x35 }, { midi::ci::subtype::set_property_data_inquiry, 0x36 }, { midi::ci::subtype::set_property_data_reply, 0x37 },
    { midi::ci::subtype::subscription_inquiry, 0x38 }, { midi::ci::subtype::subscription_reply, 0x39 }, { midi::ci::subtype::notify, 0x3f }, { midi::ci::subtype::process_inquiry_capabilities_inquiry, 0x40 }, { midi::ci::subtype::process_inquiry_capabilities_reply, 0x41 }, { midi::ci::subtype::midi_message_report_inquiry, 0x42 },
    { midi::ci::subtype::midi_message_report_reply, 0x43 }, { midi::ci::subtype::midi_message_report_end, 0x44 },
};
static const code codes_ci_property_exchange[] = {
    { midi::ci::property_exchange::version_major, 0x0 }, { midi::ci::property_exchange::version_minor, 0x0 },
};
static const code codes_note_management[] = {
    { midi::note_management::reset, 0x1 }, { midi::note_management::detach, 0x2 }, { midi::note_management::detach_and_reset, 0x3 },
};
static const code codes_note_attribute[] = {
    { midi::note_attribute::none, 0x0 }, { midi::note_attribute::manufacturer_specific, 0x1 }, { midi::note_attribute::profile_specific, 0x2 }, { midi::note_attribute::pitch_7_9, 0x3 },
};
static const code codes_discovery_filter[] = {
    { midi::discovery_filter::endpoint_info, 0x1 }, { midi::discovery_filter::device_identity, 0x2 }, { midi::discovery_filter::endpoint_name, 0x4 }, { midi::discovery_filter::product_instance_id, 0x8 }, { midi::discovery_filter::stream_configuration, 0x10 }, { midi::discovery_filter::endpoint_all, 0x1f },
    { midi::discovery_filter::function_block_info, 0x1 }, { midi::discovery_filter::function_block_name, 0x2 }, { midi::discovery_filter::function_block_all, 0x3 },
};
static const code codes_manufacturer[] = {
    { midi::manufacturer::sequential_circuits, 0x10000 }, { midi::manufacturer::moog, 0x40000 }, { midi::manufacturer::lexicon, 0x60000 }, { midi::manufacturer::kurzweil, 0x70000 }, { midi::manufacturer::fender, 0x80000 }, { midi::manufacturer::oberheim, 0x100000 },
    { midi::manufacturer::midi9, 0x90000 }, { midi::manufacturer::simmons, 0x120000 }, { midi::manufacturer::digidesign, 0x130000 }, { midi::manufacturer::fairlight, 0x140000 }, { midi::manufacturer::emu, 0x180000 }, { midi::manufacturer::hohner, 0x240000 },
    { midi::manufacturer::ppg, 0x290000 }, { midi::manufacturer::wersi, 0x3b0000 }, { midi::manufacturer::waldorf, 0x3e0000 }, { midi::manufacturer::kawai, 0x400000 }, { midi::manufacturer::roland, 0x410000 }, { midi::manufacturer::korg, 0x420000 },
    { midi::manufacturer::yamaha, 0x430000 }, { midi::manufacturer::casio, 0x440000 }, { midi::manufacturer::akai, 0x470000 }, { midi::manufacturer::fujitsu, 0x4b0000 }, { midi::manufacturer::sony, 0x4c0000 }, { midi::manufacturer::teac, 0x4e0000 },
    { midi::manufacturer::fostex, 0x510000 }, { midi::manufacturer::zoom, 0x520000 }, { midi::manufacturer::suzuki, 0x550000 }, { midi::manufacturer::educational, 0x7d0000 }, { midi::manufacturer::universal_non_realtime, 0x7e0000 }, { midi::manufacturer::universal_realtime, 0x7f0000 },
    { midi::manufacturer::rane, 0x17 }, { midi::manufacturer::allen_heath, 0x1a }, { midi::manufacturer::motu, 0x3b }, { midi::manufacturer::atari, 0x58 }, { midi::manufacturer::mackie, 0x66 }, { midi::manufacturer::amd, 0x6f },
    { midi::manufacturer::m_audio, 0x105 }, { midi::manufacturer::microsoft, 0x10a }, { midi::manufacturer::line6, 0x10c }, { midi::manufacturer::cakewalk, 0x121 }, { midi::manufacturer::numark, 0x13f }, { midi::manufacturer::denon, 0x20b },
    { midi::manufacturer::google, 0x20d }, { midi::manufacturer::imitone, 0x213 }, { midi::manufacturer::universal_audio, 0x218 }, { midi::manufacturer::sensel, 0x21d }, { midi::manufacturer::mk2_image, 0x222 }, { midi::manufacturer::bon_tempi, 0x200b },
    { midi::manufacturer::fatar, 0x201a }, { midi::manufacturer::pinnacle, 0x201e }, { midi::manufacturer::tc_electronics, 0x201f }, { midi::manufacturer::doepfer, 0x2020 }, { midi::manufacturer::focusrite, 0x2029 }, { midi::manufacturer::novation, 0x2029 },
    { midi::manufacturer::emagic, 0x2031 }, { midi::manufacturer::behringer, 0x2032 }, { midi::manufacturer::access, 0x2033 }, { midi::manufacturer::terratec, 0x2036 }, { midi::manufacturer::propellerhead, 0x203a }, { midi::manufacturer::klavis, 0x2047 },
    { midi::manufacturer::vermona, 0x204d }, { midi::manufacturer::nokia, 0x204e }, { midi::manufacturer::hartmann, 0x2050 }, { midi::manufacturer::waves, 0x2066 }, { midi::manufacturer::arturia, 0x206b }, { midi::manufacturer::hanpin, 0x2079 },
    { midi::manufacturer::serato, 0x207f }, { midi::manufacturer::presonus, 0x2103 }, { midi::manufacturer::native_instruments, 0x2109 }, { midi::manufacturer::ploytec, 0x210d }, { midi::manufacturer::roli, 0x2110 }, { midi::manufacturer::ik_multimedia, 0x211a },
    { midi::manufacturer::ableton, 0x211d }, { midi::manufacturer::bome, 0x2132 }, { midi::manufacturer::touchkeys, 0x2136 },
};
static const code codes_misc[] = {
    { midi::jr_clock_frequency, 0x7a12 },
};
