------------------------------- MODULE Names -------------------------------
(* The numbers and texts the MIDI specifications assign to the names the library
   offers: MIDI 1.0 (statuses, controllers, SysEx ids), UMP and MIDI 2.0 protocol,
   MIDI-CI and its property exchange resources.                              *)
EXTENDS Integers, Sequences

UtilityStatus == <<
  <<"noop", 0>>, <<"jr_clock", \h10>>, <<"jr_timestamp", \h20>> >>

SystemStatusNames == <<
  <<"mtc_quarter_frame", \hF1>>, <<"song_position", \hF2>>, <<"song_select", \hF3>>, <<"tune_request", \hF6>>,
  <<"clock", \hF8>>, <<"start", \hFA>>, <<"cont", \hFB>>, <<"stop", \hFC>>, <<"active_sense", \hFE>>,
  <<"reset", \hFF>> >>

Midi1Status == <<
  <<"note_off", \h80>>, <<"note_on", \h90>>, <<"poly_pressure", \hA0>>, <<"control_change", \hB0>>,
  <<"program_change", \hC0>>, <<"channel_pressure", \hD0>>, <<"pitch_bend", \hE0>> >>

DataStatus == <<
  <<"sysex7_complete", 0>>, <<"sysex7_start", \h10>>, <<"sysex7_continue", \h20>>, <<"sysex7_end", \h30>> >>

VoiceStatus == <<
  <<"registered_per_note_controller", 0>>, <<"assignable_per_note_controller", \h10>>,
  <<"registered_controller", \h20>>, <<"assignable_controller", \h30>>, <<"relative_registered_controller", \h40>>,
  <<"relative_assignable_controller", \h50>>, <<"per_note_pitch_bend", \h60>>, <<"note_off", \h80>>,
  <<"note_on", \h90>>, <<"poly_pressure", \hA0>>, <<"control_change", \hB0>>, <<"program_change", \hC0>>,
  <<"channel_pressure", \hD0>>, <<"pitch_bend", \hE0>>, <<"per_note_management", \hF0>> >>

ExtendedStatus == <<
  <<"sysex8_complete", 0>>, <<"sysex8_start", \h10>>, <<"sysex8_continue", \h20>>, <<"sysex8_end", \h30>>,
  <<"mixed_data_set_header", \h80>>, <<"mixed_data_set_payload", \h90>> >>

Protocol == <<
  <<"midi1", 1>>, <<"midi2", 2>> >>

Extensions == <<
  <<"jitter_reduction_transmit", 1>>, <<"jitter_reduction_receive", 2>> >>

StreamStatus == <<
  <<"endpoint_discovery", 0>>, <<"endpoint_info", 1>>, <<"device_identity", 2>>, <<"endpoint_name", 3>>,
  <<"product_instance_id", 4>>, <<"stream_configuration_request", 5>>, <<"stream_configuration_notify", 6>>,
  <<"function_block_discovery", \h10>>, <<"function_block_info", \h11>>, <<"function_block_name", \h12>> >>

ControlChange == <<
  <<"bank_select_msb", 0>>, <<"modulation_wheel", 1>>, <<"breath_controller", 2>>, <<"foot_controller", 4>>,
  <<"portamento_time", 5>>, <<"data_entry_msb", 6>>, <<"volume", 7>>, <<"balance", 8>>, <<"pan", \h0A>>,
  <<"expression_controller", \h0B>>, <<"effect_control_1", \h0C>>, <<"effect_control_2", \h0D>>,
  <<"general_purpose_1", \h10>>, <<"general_purpose_2", \h11>>, <<"general_purpose_3", \h12>>,
  <<"general_purpose_4", \h13>>, <<"bank_select", \h20>>, <<"bank_select_lsb", \h20>>, <<"lsb", \h20>>,
  <<"data_entry_lsb", \h26>>, <<"damper_pedal", \h40>>, <<"sustain", \h40>>, <<"portamento_on_off", \h41>>,
  <<"sustenuto", \h42>>, <<"soft_pedal", \h43>>, <<"legato_footswitch", \h44>>, <<"hold_2", \h45>>,
  <<"sound_controller_1", \h46>>, <<"sound_variation", \h46>>, <<"sound_controller_2", \h47>>, <<"timbre", \h47>>,
  <<"harmonic_intensity", \h47>>, <<"sound_controller_3", \h48>>, <<"release_time", \h48>>,
  <<"sound_controller_4", \h49>>, <<"attack_time", \h49>>, <<"sound_controller_5", \h4A>>, <<"brightness", \h4A>>,
  <<"sound_controller_6", \h4B>>, <<"decay_time", \h4B>>, <<"sound_controller_7", \h4C>>, <<"vibrato_rate", \h4C>>,
  <<"sound_controller_8", \h4D>>, <<"vibrato_depth", \h4D>>, <<"sound_controller_9", \h4E>>,
  <<"vibrato_delay", \h4E>>, <<"sound_controller_10", \h4F>>, <<"general_purpose_5", \h50>>,
  <<"general_purpose_6", \h51>>, <<"general_purpose_7", \h52>>, <<"general_purpose_8", \h53>>,
  <<"portamento_control", \h54>>, <<"hi_res_velocity_prefix", \h58>>, <<"effects_1_depth", \h5B>>,
  <<"reverb_send_level", \h5B>>, <<"effects_2_depth", \h5C>>, <<"effects_3_depth", \h5D>>,
  <<"chorus_send_level", \h5D>>, <<"effects_4_depth", \h5E>>, <<"effects_5_depth", \h5F>>,
  <<"data_increment", \h60>>, <<"data_decrement", \h61>>, <<"nrpn_lsb", \h62>>, <<"nrpn_msb", \h63>>,
  <<"rpn_lsb", \h64>>, <<"rpn_msb", \h65>>, <<"all_sound_off", \h78>>, <<"reset_all_controllers", \h79>>,
  <<"local_control", \h7A>>, <<"all_notes_off", \h7B>>, <<"omni_mode_off", \h7C>>, <<"omni_mode_on", \h7D>>,
  <<"mono_mode_on", \h7E>>, <<"poly_mode_off", \h7E>>, <<"mono_mode_off", \h7F>>, <<"poly_mode_on", \h7F>> >>

RegisteredParameter == <<
  <<"pitch_bend_sensitivity", 0>>, <<"fine_tuning", 1>>, <<"coarse_tuning", 2>>, <<"tuning_program_select", 3>>,
  <<"tuning_bank_select", 4>>, <<"per_note_pitch_bend_sensitivity", 7>> >>

RegisteredPerNote == <<
  <<"modulation", 1>>, <<"breath", 2>>, <<"pitch_7_25", 3>>, <<"volume", 7>>, <<"balance", 8>>, <<"pan", \h0A>>,
  <<"expression", \h0B>>, <<"sound_controller_1", \h46>>, <<"sound_variation", \h46>>,
  <<"sound_controller_2", \h47>>, <<"timbre", \h47>>, <<"harmonic_intensity", \h47>>, <<"sound_controller_3", \h48>>,
  <<"release_time", \h48>>, <<"sound_controller_4", \h49>>, <<"attack_time", \h49>>, <<"sound_controller_5", \h4A>>,
  <<"brightness", \h4A>>, <<"sound_controller_6", \h4B>>, <<"decay_time", \h4B>>, <<"sound_controller_7", \h4C>>,
  <<"vibrato_rate", \h4C>>, <<"sound_controller_8", \h4D>>, <<"vibrato_depth", \h4D>>,
  <<"sound_controller_9", \h4E>>, <<"vibrato_delay", \h4E>>, <<"sound_controller_10", \h4F>>,
  <<"effects_1_depth", \h5B>>, <<"reverb_send_level", \h5B>>, <<"effects_2_depth", \h5C>>,
  <<"effects_3_depth", \h5D>>, <<"chorus_send_level", \h5D>>, <<"effects_4_depth", \h5E>>,
  <<"effects_5_depth", \h5F>> >>

NoteManagement == <<
  <<"reset", 1>>, <<"detach", 2>>, <<"detach_and_reset", 3>> >>

NoteAttribute == <<
  <<"none", 0>>, <<"manufacturer_specific", 1>>, <<"profile_specific", 2>>, <<"pitch_7_9", 3>> >>

DiscoveryFilter == <<
  <<"endpoint_info", 1>>, <<"device_identity", 2>>, <<"endpoint_name", 4>>, <<"product_instance_id", 8>>,
  <<"stream_configuration", \h10>>, <<"endpoint_all", \h1F>>, <<"function_block_info", 1>>,
  <<"function_block_name", 2>>, <<"function_block_all", 3>> >>

Manufacturer == <<
  <<"sequential_circuits", \h10000>>, <<"moog", \h40000>>, <<"lexicon", \h60000>>, <<"kurzweil", \h70000>>,
  <<"fender", \h80000>>, <<"oberheim", \h100000>>, <<"midi9", \h90000>>, <<"simmons", \h120000>>,
  <<"digidesign", \h130000>>, <<"fairlight", \h140000>>, <<"emu", \h180000>>, <<"hohner", \h240000>>,
  <<"ppg", \h290000>>, <<"wersi", \h3B0000>>, <<"waldorf", \h3E0000>>, <<"kawai", \h400000>>, <<"roland", \h410000>>,
  <<"korg", \h420000>>, <<"yamaha", \h430000>>, <<"casio", \h440000>>, <<"akai", \h470000>>, <<"fujitsu", \h4B0000>>,
  <<"sony", \h4C0000>>, <<"teac", \h4E0000>>, <<"fostex", \h510000>>, <<"zoom", \h520000>>, <<"suzuki", \h550000>>,
  <<"educational", \h7D0000>>, <<"universal_non_realtime", \h7E0000>>, <<"universal_realtime", \h7F0000>>,
  <<"rane", \h17>>, <<"allen_heath", \h1A>>, <<"motu", \h3B>>, <<"atari", \h58>>, <<"mackie", \h66>>,
  <<"amd", \h6F>>, <<"m_audio", \h105>>, <<"microsoft", \h10A>>, <<"line6", \h10C>>, <<"cakewalk", \h121>>,
  <<"numark", \h13F>>, <<"denon", \h20B>>, <<"google", \h20D>>, <<"imitone", \h213>>, <<"universal_audio", \h218>>,
  <<"sensel", \h21D>>, <<"mk2_image", \h222>>, <<"bon_tempi", \h200B>>, <<"fatar", \h201A>>, <<"pinnacle", \h201E>>,
  <<"tc_electronics", \h201F>>, <<"doepfer", \h2020>>, <<"focusrite", \h2029>>, <<"novation", \h2029>>,
  <<"emagic", \h2031>>, <<"behringer", \h2032>>, <<"access", \h2033>>, <<"terratec", \h2036>>,
  <<"propellerhead", \h203A>>, <<"klavis", \h2047>>, <<"vermona", \h204D>>, <<"nokia", \h204E>>,
  <<"hartmann", \h2050>>, <<"waves", \h2066>>, <<"arturia", \h206B>>, <<"hanpin", \h2079>>, <<"serato", \h207F>>,
  <<"presonus", \h2103>>, <<"native_instruments", \h2109>>, <<"ploytec", \h210D>>, <<"roli", \h2110>>,
  <<"ik_multimedia", \h211A>>, <<"ableton", \h211D>>, <<"bome", \h2132>>, <<"touchkeys", \h2136>> >>

UniversalType == <<
  <<"sample_dump_header", \h7E01>>, <<"sample_data_packet", \h7E02>>, <<"sample_dump_request", \h7E03>>,
  <<"midi_time_code_non_real_time", \h7E04>>, <<"sample_dump_extensions", \h7E05>>,
  <<"general_information", \h7E06>>, <<"file_dump", \h7E07>>, <<"midi_tuning_non_real_time", \h7E08>>,
  <<"general_midi", \h7E09>>, <<"downloadable_sounds", \h7E0A>>, <<"file_reference_message", \h7E0B>>,
  <<"midi_visual_control", \h7E0C>>, <<"capability_inquiry", \h7E0D>>, <<"end_of_file", \h7E7B>>, <<"wait", \h7E7C>>,
  <<"cancel", \h7E7D>>, <<"nak", \h7E7E>>, <<"ack", \h7E7F>>, <<"midi_time_code_real_time", \h7F01>>,
  <<"midi_show_control", \h7F02>>, <<"notation_information", \h7F03>>, <<"device_control", \h7F04>>,
  <<"real_time_mtc_cueing", \h7F05>>, <<"midi_machine_control_commands", \h7F06>>,
  <<"midi_machine_control_responses", \h7F07>>, <<"midi_tuning_real_time", \h7F08>>,
  <<"controller_destination_setting", \h7F09>>, <<"none", 0>> >>

UniversalSubtype == <<
  <<"identity_request", 1>>, <<"identity_reply", 2>>, <<"gm_1_system_on", 1>>, <<"gm_system_off", 2>>,
  <<"gm_2_system_on", 3>>, <<"mtc_full_message", 1>>, <<"mtc_user_bits", 2>> >>

CiCategory == <<
  <<"profile_configuration", 4>>, <<"property_exchange", 8>>, <<"process_inquiry", \h10>> >>

CiSubtype == <<
  <<"discovery_inquiry", \h70>>, <<"discovery_reply", \h71>>, <<"endpoint_information_inquiry", \h72>>,
  <<"endpoint_information_reply", \h73>>, <<"ack", \h7D>>, <<"invalidate_muid", \h7E>>, <<"nak", \h7F>>,
  <<"profile_inquiry", \h20>>, <<"profile_inquiry_reply", \h21>>, <<"set_profile_on", \h22>>,
  <<"set_profile_off", \h23>>, <<"profile_enabled", \h24>>, <<"profile_disabled", \h25>>, <<"profile_added", \h26>>,
  <<"profile_removed", \h27>>, <<"profile_details_inquiry", \h28>>, <<"profile_details_reply", \h29>>,
  <<"profile_specific_data", \h2F>>, <<"property_exchange_capabilities_inquiry", \h30>>,
  <<"property_exchange_capabilities_reply", \h31>>, <<"get_property_data_inquiry", \h34>>,
  <<"get_property_data_reply", \h35>>, <<"set_property_data_inquiry", \h36>>, <<"set_property_data_reply", \h37>>,
  <<"subscription_inquiry", \h38>>, <<"subscription_reply", \h39>>, <<"notify", \h3F>>,
  <<"process_inquiry_capabilities_inquiry", \h40>>, <<"process_inquiry_capabilities_reply", \h41>>,
  <<"midi_message_report_inquiry", \h42>>, <<"midi_message_report_reply", \h43>>,
  <<"midi_message_report_end", \h44>> >>

PacketType == <<
  <<"utility", 0>>, <<"system", 1>>, <<"midi1_channel_voice", 2>>, <<"data", 3>>, <<"midi2_channel_voice", 4>>,
  <<"extended_data", 5>>, <<"flex_data", \h0D>>, <<"stream", \h0F>> >>

PacketFormat == <<
  <<"complete", 0>>, <<"start", 1>>, <<"cont", 2>>, <<"end", 3>> >>

PacketAddress == <<
  <<"channel", 0>>, <<"group", 1>> >>

FunctionBlock == <<
  <<"direction_input", 1>>, <<"direction_output", 2>>, <<"bidirectional", 3>>, <<"not_midi1", 0>>,
  <<"midi1_unrestricted", 1>>, <<"midi1_31250", 2>>, <<"ui_hint_as_direction", 0>>, <<"ui_hint_receiver", 1>>,
  <<"ui_hint_sender", 2>> >>

CiNumbers == <<
  <<"message_version_1", 1>>, <<"message_version_2", 2>>, <<"version", 2>>, <<"broadcast_muid", \hFFFFFFF>>,
  <<"profile_destination::group", \h7E>>, <<"profile_destination::function_block", \h7F>>,
  <<"property_exchange::version_major", 0>>, <<"property_exchange::version_minor", 0>> >>

JrNumbers == <<
  <<"jr_clock_frequency", \h7A12>> >>

HeaderTags == <<
  <<114, 101, 115, 111, 117, 114, 99, 101>>,   \* resource
  <<99, 111, 109, 109, 97, 110, 100>>,   \* command
  <<115, 116, 97, 116, 117, 115>>,   \* status
  <<105, 100>>,   \* id
  <<111, 102, 102, 115, 101, 116>>,   \* offset
  <<108, 105, 109, 105, 116>>,   \* limit
  <<101, 110, 99, 111, 100, 105, 110, 103>>,   \* encoding
  <<109, 101, 115, 115, 97, 103, 101>>,   \* message
  <<115, 117, 98, 115, 99, 114, 105, 98, 101, 73, 100>>   \* subscribeId
  >>
ResourceNames == <<
  <<82, 101, 115, 111, 117, 114, 99, 101, 76, 105, 115, 116>>,   \* ResourceList
  <<68, 101, 118, 105, 99, 101, 73, 110, 102, 111>>,   \* DeviceInfo
  <<67, 104, 97, 110, 110, 101, 108, 76, 105, 115, 116>>,   \* ChannelList
  <<74, 83, 79, 78, 83, 99, 104, 101, 109, 97>>,   \* JSONSchema
  <<77, 111, 100, 101, 76, 105, 115, 116>>,   \* ModeList
  <<67, 117, 114, 114, 101, 110, 116, 77, 111, 100, 101>>,   \* CurrentMode
  <<80, 114, 111, 103, 114, 97, 109, 76, 105, 115, 116>>,   \* ProgramList
  <<67, 108, 111, 99, 107, 77, 111, 100, 101>>,   \* ClockMode
  <<76, 111, 99, 97, 108, 79, 110>>,   \* LocalOn
  <<67, 104, 97, 110, 110, 101, 108, 77, 111, 100, 101>>,   \* ChannelMode
  <<66, 97, 115, 105, 99, 67, 104, 97, 110, 110, 101, 108, 82, 120>>,   \* BasicChannelRx
  <<66, 97, 115, 105, 99, 67, 104, 97, 110, 110, 101, 108, 84, 120>>,   \* BasicChannelTx
  <<77, 97, 120, 83, 121, 115, 101, 120, 56, 83, 116, 114, 101, 97, 109, 115>>,   \* MaxSysex8Streams
  <<83, 116, 97, 116, 101, 76, 105, 115, 116>>,   \* StateList
  <<83, 116, 97, 116, 101>>,   \* State
  <<65, 108, 108, 67, 116, 114, 108, 76, 105, 115, 116>>,   \* AllCtrlList
  <<67, 104, 67, 116, 114, 108, 76, 105, 115, 116>>,   \* ChCtrlList
  <<67, 116, 114, 108, 77, 97, 112, 76, 105, 115, 116>>   \* CtrlMapList
  >>

NumbersOf(table) == [k \in DOMAIN table |-> table[k][2]]
Tables == [ utilityStatus |-> UtilityStatus,
            systemStatusNames |-> SystemStatusNames,
            midi1Status |-> Midi1Status,
            dataStatus |-> DataStatus,
            voiceStatus |-> VoiceStatus,
            extendedStatus |-> ExtendedStatus,
            protocol |-> Protocol,
            extensions |-> Extensions,
            streamStatus |-> StreamStatus,
            controlChange |-> ControlChange,
            registeredParameter |-> RegisteredParameter,
            registeredPerNote |-> RegisteredPerNote,
            noteManagement |-> NoteManagement,
            noteAttribute |-> NoteAttribute,
            discoveryFilter |-> DiscoveryFilter,
            manufacturer |-> Manufacturer,
            universalType |-> UniversalType,
            universalSubtype |-> UniversalSubtype,
            ciCategory |-> CiCategory,
            ciSubtype |-> CiSubtype,
            packetType |-> PacketType,
            packetFormat |-> PacketFormat,
            packetAddress |-> PacketAddress,
            functionBlock |-> FunctionBlock,
            ciNumbers |-> CiNumbers,
            jrNumbers |-> JrNumbers ]

=============================================================================
