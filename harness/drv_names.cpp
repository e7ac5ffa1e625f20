// The named numbers and texts of the public headers.
#include "exec.h"
#include "alloc.h"
#include <midi/capability_inquiry.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/manufacturer.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/universal_packet.h>
#include <midi/universal_sysex.h>
void reset_case() {}
OP("utilityStatus")
    r.push_back({
      (long long)(midi::utility_status::noop),
      (long long)(midi::utility_status::jr_clock),
      (long long)(midi::utility_status::jr_timestamp)
    });
END
OP("systemStatusNames")
    r.push_back({
      (long long)(midi::system_status::mtc_quarter_frame),
      (long long)(midi::system_status::song_position),
      (long long)(midi::system_status::song_select),
      (long long)(midi::system_status::tune_request),
      (long long)(midi::system_status::clock),
      (long long)(midi::system_status::start),
      (long long)(midi::system_status::cont),
      (long long)(midi::system_status::stop),
      (long long)(midi::system_status::active_sense),
      (long long)(midi::system_status::reset)
    });
END
OP("midi1Status")
    r.push_back({
      (long long)(midi::midi1_channel_voice_status::note_off),
      (long long)(midi::midi1_channel_voice_status::note_on),
      (long long)(midi::midi1_channel_voice_status::poly_pressure),
      (long long)(midi::midi1_channel_voice_status::control_change),
      (long long)(midi::midi1_channel_voice_status::program_change),
      (long long)(midi::midi1_channel_voice_status::channel_pressure),
      (long long)(midi::midi1_channel_voice_status::pitch_bend)
    });
END
OP("dataStatus")
    r.push_back({
      (long long)(midi::data_status::sysex7_complete),
      (long long)(midi::data_status::sysex7_start),
      (long long)(midi::data_status::sysex7_continue),
      (long long)(midi::data_status::sysex7_end)
    });
END
OP("voiceStatus")
    r.push_back({
      (long long)(midi::channel_voice_status::registered_per_note_controller),
      (long long)(midi::channel_voice_status::assignable_per_note_controller),
      (long long)(midi::channel_voice_status::registered_controller),
      (long long)(midi::channel_voice_status::assignable_controller),
      (long long)(midi::channel_voice_status::relative_registered_controller),
      (long long)(midi::channel_voice_status::relative_assignable_controller),
      (long long)(midi::channel_voice_status::per_note_pitch_bend),
      (long long)(midi::channel_voice_status::note_off),
      (long long)(midi::channel_voice_status::note_on),
      (long long)(midi::channel_voice_status::poly_pressure),
      (long long)(midi::channel_voice_status::control_change),
      (long long)(midi::channel_voice_status::program_change),
      (long long)(midi::channel_voice_status::channel_pressure),
      (long long)(midi::channel_voice_status::pitch_bend),
      (long long)(midi::channel_voice_status::per_note_management)
    });
END
OP("extendedStatus")
    r.push_back({
      (long long)(midi::extended_data_status::sysex8_complete),
      (long long)(midi::extended_data_status::sysex8_start),
      (long long)(midi::extended_data_status::sysex8_continue),
      (long long)(midi::extended_data_status::sysex8_end),
      (long long)(midi::extended_data_status::mixed_data_set_header),
      (long long)(midi::extended_data_status::mixed_data_set_payload)
    });
END
OP("protocol")
    r.push_back({
      (long long)(midi::protocol::midi1),
      (long long)(midi::protocol::midi2)
    });
END
OP("extensions")
    r.push_back({
      (long long)(midi::extensions::jitter_reduction_transmit),
      (long long)(midi::extensions::jitter_reduction_receive)
    });
END
OP("streamStatus")
    r.push_back({
      (long long)(midi::stream_status::endpoint_discovery),
      (long long)(midi::stream_status::endpoint_info),
      (long long)(midi::stream_status::device_identity),
      (long long)(midi::stream_status::endpoint_name),
      (long long)(midi::stream_status::product_instance_id),
      (long long)(midi::stream_status::stream_configuration_request),
      (long long)(midi::stream_status::stream_configuration_notify),
      (long long)(midi::stream_status::function_block_discovery),
      (long long)(midi::stream_status::function_block_info),
      (long long)(midi::stream_status::function_block_name)
    });
END
OP("controlChange")
    r.push_back({
      (long long)(midi::control_change::bank_select_msb),
      (long long)(midi::control_change::modulation_wheel),
      (long long)(midi::control_change::breath_controller),
      (long long)(midi::control_change::foot_controller),
      (long long)(midi::control_change::portamento_time),
      (long long)(midi::control_change::data_entry_msb),
      (long long)(midi::control_change::volume),
      (long long)(midi::control_change::balance),
      (long long)(midi::control_change::pan),
      (long long)(midi::control_change::expression_controller),
      (long long)(midi::control_change::effect_control_1),
      (long long)(midi::control_change::effect_control_2),
      (long long)(midi::control_change::general_purpose_1),
      (long long)(midi::control_change::general_purpose_2),
      (long long)(midi::control_change::general_purpose_3),
      (long long)(midi::control_change::general_purpose_4),
      (long long)(midi::control_change::bank_select),
      (long long)(midi::control_change::bank_select_lsb),
      (long long)(midi::control_change::lsb),
      (long long)(midi::control_change::data_entry_lsb),
      (long long)(midi::control_change::damper_pedal),
      (long long)(midi::control_change::sustain),
      (long long)(midi::control_change::portamento_on_off),
      (long long)(midi::control_change::sustenuto),
      (long long)(midi::control_change::soft_pedal),
      (long long)(midi::control_change::legato_footswitch),
      (long long)(midi::control_change::hold_2),
      (long long)(midi::control_change::sound_controller_1),
      (long long)(midi::control_change::sound_variation),
      (long long)(midi::control_change::sound_controller_2),
      (long long)(midi::control_change::timbre),
      (long long)(midi::control_change::harmonic_intensity),
      (long long)(midi::control_change::sound_controller_3),
      (long long)(midi::control_change::release_time),
      (long long)(midi::control_change::sound_controller_4),
      (long long)(midi::control_change::attack_time),
      (long long)(midi::control_change::sound_controller_5),
      (long long)(midi::control_change::brightness),
      (long long)(midi::control_change::sound_controller_6),
      (long long)(midi::control_change::decay_time),
      (long long)(midi::control_change::sound_controller_7),
      (long long)(midi::control_change::vibrato_rate),
      (long long)(midi::control_change::sound_controller_8),
      (long long)(midi::control_change::vibrato_depth),
      (long long)(midi::control_change::sound_controller_9),
      (long long)(midi::control_change::vibrato_delay),
      (long long)(midi::control_change::sound_controller_10),
      (long long)(midi::control_change::general_purpose_5),
      (long long)(midi::control_change::general_purpose_6),
      (long long)(midi::control_change::general_purpose_7),
      (long long)(midi::control_change::general_purpose_8),
      (long long)(midi::control_change::portamento_control),
      (long long)(midi::control_change::hi_res_velocity_prefix),
      (long long)(midi::control_change::effects_1_depth),
      (long long)(midi::control_change::reverb_send_level),
      (long long)(midi::control_change::effects_2_depth),
      (long long)(midi::control_change::effects_3_depth),
      (long long)(midi::control_change::chorus_send_level),
      (long long)(midi::control_change::effects_4_depth),
      (long long)(midi::control_change::effects_5_depth),
      (long long)(midi::control_change::data_increment),
      (long long)(midi::control_change::data_decrement),
      (long long)(midi::control_change::nrpn_lsb),
      (long long)(midi::control_change::nrpn_msb),
      (long long)(midi::control_change::rpn_lsb),
      (long long)(midi::control_change::rpn_msb),
      (long long)(midi::control_change::all_sound_off),
      (long long)(midi::control_change::reset_all_controllers),
      (long long)(midi::control_change::local_control),
      (long long)(midi::control_change::all_notes_off),
      (long long)(midi::control_change::omni_mode_off),
      (long long)(midi::control_change::omni_mode_on),
      (long long)(midi::control_change::mono_mode_on),
      (long long)(midi::control_change::poly_mode_off),
      (long long)(midi::control_change::mono_mode_off),
      (long long)(midi::control_change::poly_mode_on)
    });
END
OP("registeredParameter")
    r.push_back({
      (long long)(midi::registered_parameter_number::pitch_bend_sensitivity),
      (long long)(midi::registered_parameter_number::fine_tuning),
      (long long)(midi::registered_parameter_number::coarse_tuning),
      (long long)(midi::registered_parameter_number::tuning_program_select),
      (long long)(midi::registered_parameter_number::tuning_bank_select),
      (long long)(midi::registered_parameter_number::per_note_pitch_bend_sensitivity)
    });
END
OP("registeredPerNote")
    r.push_back({
      (long long)(midi::registered_per_note_controller::modulation),
      (long long)(midi::registered_per_note_controller::breath),
      (long long)(midi::registered_per_note_controller::pitch_7_25),
      (long long)(midi::registered_per_note_controller::volume),
      (long long)(midi::registered_per_note_controller::balance),
      (long long)(midi::registered_per_note_controller::pan),
      (long long)(midi::registered_per_note_controller::expression),
      (long long)(midi::registered_per_note_controller::sound_controller_1),
      (long long)(midi::registered_per_note_controller::sound_variation),
      (long long)(midi::registered_per_note_controller::sound_controller_2),
      (long long)(midi::registered_per_note_controller::timbre),
      (long long)(midi::registered_per_note_controller::harmonic_intensity),
      (long long)(midi::registered_per_note_controller::sound_controller_3),
      (long long)(midi::registered_per_note_controller::release_time),
      (long long)(midi::registered_per_note_controller::sound_controller_4),
      (long long)(midi::registered_per_note_controller::attack_time),
      (long long)(midi::registered_per_note_controller::sound_controller_5),
      (long long)(midi::registered_per_note_controller::brightness),
      (long long)(midi::registered_per_note_controller::sound_controller_6),
      (long long)(midi::registered_per_note_controller::decay_time),
      (long long)(midi::registered_per_note_controller::sound_controller_7),
      (long long)(midi::registered_per_note_controller::vibrato_rate),
      (long long)(midi::registered_per_note_controller::sound_controller_8),
      (long long)(midi::registered_per_note_controller::vibrato_depth),
      (long long)(midi::registered_per_note_controller::sound_controller_9),
      (long long)(midi::registered_per_note_controller::vibrato_delay),
      (long long)(midi::registered_per_note_controller::sound_controller_10),
      (long long)(midi::registered_per_note_controller::effects_1_depth),
      (long long)(midi::registered_per_note_controller::reverb_send_level),
      (long long)(midi::registered_per_note_controller::effects_2_depth),
      (long long)(midi::registered_per_note_controller::effects_3_depth),
      (long long)(midi::registered_per_note_controller::chorus_send_level),
      (long long)(midi::registered_per_note_controller::effects_4_depth),
      (long long)(midi::registered_per_note_controller::effects_5_depth)
    });
END
OP("noteManagement")
    r.push_back({
      (long long)(midi::note_management::reset),
      (long long)(midi::note_management::detach),
      (long long)(midi::note_management::detach_and_reset)
    });
END
OP("noteAttribute")
    r.push_back({
      (long long)(midi::note_attribute::none),
      (long long)(midi::note_attribute::manufacturer_specific),
      (long long)(midi::note_attribute::profile_specific),
      (long long)(midi::note_attribute::pitch_7_9)
    });
END
OP("discoveryFilter")
    r.push_back({
      (long long)(midi::discovery_filter::endpoint_info),
      (long long)(midi::discovery_filter::device_identity),
      (long long)(midi::discovery_filter::endpoint_name),
      (long long)(midi::discovery_filter::product_instance_id),
      (long long)(midi::discovery_filter::stream_configuration),
      (long long)(midi::discovery_filter::endpoint_all),
      (long long)(midi::discovery_filter::function_block_info),
      (long long)(midi::discovery_filter::function_block_name),
      (long long)(midi::discovery_filter::function_block_all)
    });
END
OP("manufacturer")
    r.push_back({
      (long long)(midi::manufacturer::sequential_circuits),
      (long long)(midi::manufacturer::moog),
      (long long)(midi::manufacturer::lexicon),
      (long long)(midi::manufacturer::kurzweil),
      (long long)(midi::manufacturer::fender),
      (long long)(midi::manufacturer::oberheim),
      (long long)(midi::manufacturer::midi9),
      (long long)(midi::manufacturer::simmons),
      (long long)(midi::manufacturer::digidesign),
      (long long)(midi::manufacturer::fairlight),
      (long long)(midi::manufacturer::emu),
      (long long)(midi::manufacturer::hohner),
      (long long)(midi::manufacturer::ppg),
      (long long)(midi::manufacturer::wersi),
      (long long)(midi::manufacturer::waldorf),
      (long long)(midi::manufacturer::kawai),
      (long long)(midi::manufacturer::roland),
      (long long)(midi::manufacturer::korg),
      (long long)(midi::manufacturer::yamaha),
      (long long)(midi::manufacturer::casio),
      (long long)(midi::manufacturer::akai),
      (long long)(midi::manufacturer::fujitsu),
      (long long)(midi::manufacturer::sony),
      (long long)(midi::manufacturer::teac),
      (long long)(midi::manufacturer::fostex),
      (long long)(midi::manufacturer::zoom),
      (long long)(midi::manufacturer::suzuki),
      (long long)(midi::manufacturer::educational),
      (long long)(midi::manufacturer::universal_non_realtime),
      (long long)(midi::manufacturer::universal_realtime),
      (long long)(midi::manufacturer::rane),
      (long long)(midi::manufacturer::allen_heath),
      (long long)(midi::manufacturer::motu),
      (long long)(midi::manufacturer::atari),
      (long long)(midi::manufacturer::mackie),
      (long long)(midi::manufacturer::amd),
      (long long)(midi::manufacturer::m_audio),
      (long long)(midi::manufacturer::microsoft),
      (long long)(midi::manufacturer::line6),
      (long long)(midi::manufacturer::cakewalk),
      (long long)(midi::manufacturer::numark),
      (long long)(midi::manufacturer::denon),
      (long long)(midi::manufacturer::google),
      (long long)(midi::manufacturer::imitone),
      (long long)(midi::manufacturer::universal_audio),
      (long long)(midi::manufacturer::sensel),
      (long long)(midi::manufacturer::mk2_image),
      (long long)(midi::manufacturer::bon_tempi),
      (long long)(midi::manufacturer::fatar),
      (long long)(midi::manufacturer::pinnacle),
      (long long)(midi::manufacturer::tc_electronics),
      (long long)(midi::manufacturer::doepfer),
      (long long)(midi::manufacturer::focusrite),
      (long long)(midi::manufacturer::novation),
      (long long)(midi::manufacturer::emagic),
      (long long)(midi::manufacturer::behringer),
      (long long)(midi::manufacturer::access),
      (long long)(midi::manufacturer::terratec),
      (long long)(midi::manufacturer::propellerhead),
      (long long)(midi::manufacturer::klavis),
      (long long)(midi::manufacturer::vermona),
      (long long)(midi::manufacturer::nokia),
      (long long)(midi::manufacturer::hartmann),
      (long long)(midi::manufacturer::waves),
      (long long)(midi::manufacturer::arturia),
      (long long)(midi::manufacturer::hanpin),
      (long long)(midi::manufacturer::serato),
      (long long)(midi::manufacturer::presonus),
      (long long)(midi::manufacturer::native_instruments),
      (long long)(midi::manufacturer::ploytec),
      (long long)(midi::manufacturer::roli),
      (long long)(midi::manufacturer::ik_multimedia),
      (long long)(midi::manufacturer::ableton),
      (long long)(midi::manufacturer::bome),
      (long long)(midi::manufacturer::touchkeys)
    });
END
OP("universalType")
    r.push_back({
      (long long)(midi::universal_sysex::type::sample_dump_header),
      (long long)(midi::universal_sysex::type::sample_data_packet),
      (long long)(midi::universal_sysex::type::sample_dump_request),
      (long long)(midi::universal_sysex::type::midi_time_code_non_real_time),
      (long long)(midi::universal_sysex::type::sample_dump_extensions),
      (long long)(midi::universal_sysex::type::general_information),
      (long long)(midi::universal_sysex::type::file_dump),
      (long long)(midi::universal_sysex::type::midi_tuning_non_real_time),
      (long long)(midi::universal_sysex::type::general_midi),
      (long long)(midi::universal_sysex::type::downloadable_sounds),
      (long long)(midi::universal_sysex::type::file_reference_message),
      (long long)(midi::universal_sysex::type::midi_visual_control),
      (long long)(midi::universal_sysex::type::capability_inquiry),
      (long long)(midi::universal_sysex::type::end_of_file),
      (long long)(midi::universal_sysex::type::wait),
      (long long)(midi::universal_sysex::type::cancel),
      (long long)(midi::universal_sysex::type::nak),
      (long long)(midi::universal_sysex::type::ack),
      (long long)(midi::universal_sysex::type::midi_time_code_real_time),
      (long long)(midi::universal_sysex::type::midi_show_control),
      (long long)(midi::universal_sysex::type::notation_information),
      (long long)(midi::universal_sysex::type::device_control),
      (long long)(midi::universal_sysex::type::real_time_mtc_cueing),
      (long long)(midi::universal_sysex::type::midi_machine_control_commands),
      (long long)(midi::universal_sysex::type::midi_machine_control_responses),
      (long long)(midi::universal_sysex::type::midi_tuning_real_time),
      (long long)(midi::universal_sysex::type::controller_destination_setting),
      (long long)(midi::universal_sysex::type::none)
    });
END
OP("universalSubtype")
    r.push_back({
      (long long)(midi::universal_sysex::subtype::identity_request),
      (long long)(midi::universal_sysex::subtype::identity_reply),
      (long long)(midi::universal_sysex::subtype::gm_1_system_on),
      (long long)(midi::universal_sysex::subtype::gm_system_off),
      (long long)(midi::universal_sysex::subtype::gm_2_system_on),
      (long long)(midi::universal_sysex::subtype::mtc_full_message),
      (long long)(midi::universal_sysex::subtype::mtc_user_bits)
    });
END
OP("ciCategory")
    r.push_back({
      (long long)(midi::ci::category::profile_configuration),
      (long long)(midi::ci::category::property_exchange),
      (long long)(midi::ci::category::process_inquiry)
    });
END
OP("ciSubtype")
    r.push_back({
      (long long)(midi::ci::subtype::discovery_inquiry),
      (long long)(midi::ci::subtype::discovery_reply),
      (long long)(midi::ci::subtype::endpoint_information_inquiry),
      (long long)(midi::ci::subtype::endpoint_information_reply),
      (long long)(midi::ci::subtype::ack),
      (long long)(midi::ci::subtype::invalidate_muid),
      (long long)(midi::ci::subtype::nak),
      (long long)(midi::ci::subtype::profile_inquiry),
      (long long)(midi::ci::subtype::profile_inquiry_reply),
      (long long)(midi::ci::subtype::set_profile_on),
      (long long)(midi::ci::subtype::set_profile_off),
      (long long)(midi::ci::subtype::profile_enabled),
      (long long)(midi::ci::subtype::profile_disabled),
      (long long)(midi::ci::subtype::profile_added),
      (long long)(midi::ci::subtype::profile_removed),
      (long long)(midi::ci::subtype::profile_details_inquiry),
      (long long)(midi::ci::subtype::profile_details_reply),
      (long long)(midi::ci::subtype::profile_specific_data),
      (long long)(midi::ci::subtype::property_exchange_capabilities_inquiry),
      (long long)(midi::ci::subtype::property_exchange_capabilities_reply),
      (long long)(midi::ci::subtype::get_property_data_inquiry),
      (long long)(midi::ci::subtype::get_property_data_reply),
      (long long)(midi::ci::subtype::set_property_data_inquiry),
      (long long)(midi::ci::subtype::set_property_data_reply),
      (long long)(midi::ci::subtype::subscription_inquiry),
      (long long)(midi::ci::subtype::subscription_reply),
      (long long)(midi::ci::subtype::notify),
      (long long)(midi::ci::subtype::process_inquiry_capabilities_inquiry),
      (long long)(midi::ci::subtype::process_inquiry_capabilities_reply),
      (long long)(midi::ci::subtype::midi_message_report_inquiry),
      (long long)(midi::ci::subtype::midi_message_report_reply),
      (long long)(midi::ci::subtype::midi_message_report_end)
    });
END
OP("packetType")
    r.push_back({
      (int)midi::packet_type::utility,
      (int)midi::packet_type::system,
      (int)midi::packet_type::midi1_channel_voice,
      (int)midi::packet_type::data,
      (int)midi::packet_type::midi2_channel_voice,
      (int)midi::packet_type::extended_data,
      (int)midi::packet_type::flex_data,
      (int)midi::packet_type::stream
    });
END
OP("packetFormat")
    r.push_back({
      (int)midi::packet_format::complete,
      (int)midi::packet_format::start,
      (int)midi::packet_format::cont,
      (int)midi::packet_format::end
    });
END
OP("packetAddress")
    r.push_back({
      (int)midi::packet_address::channel,
      (int)midi::packet_address::group
    });
END
OP("functionBlock")
    r.push_back({
      (long long)(midi::function_block_options::direction_input),
      (long long)(midi::function_block_options::direction_output),
      (long long)(midi::function_block_options::bidirectional),
      (long long)(midi::function_block_options::not_midi1),
      (long long)(midi::function_block_options::midi1_unrestricted),
      (long long)(midi::function_block_options::midi1_31250),
      (long long)(midi::function_block_options::ui_hint_as_direction),
      (long long)(midi::function_block_options::ui_hint_receiver),
      (long long)(midi::function_block_options::ui_hint_sender)
    });
END
OP("ciNumbers")
    r.push_back({
      (long long)(midi::ci::message_version_1),
      (long long)(midi::ci::message_version_2),
      (long long)(midi::ci::version),
      (long long)(midi::ci::broadcast_muid),
      (long long)(midi::ci::profile_destination::group),
      (long long)(midi::ci::profile_destination::function_block),
      (long long)(midi::ci::property_exchange::version_major),
      (long long)(midi::ci::property_exchange::version_minor)
    });
END
OP("jrNumbers")
    r.push_back({
      (long long)(midi::jr_clock_frequency)
    });
END
OP("headerTags")
    r.push_back(S(std::string(midi::ci::property_exchange::tags::resource)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::command)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::status)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::id)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::offset)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::limit)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::encoding)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::message)));
    r.push_back(S(std::string(midi::ci::property_exchange::tags::subscribeId)));
END
OP("resourceNames")
    r.push_back(S(std::string(midi::ci::property_exchange::ResourceList)));
    r.push_back(S(std::string(midi::ci::property_exchange::DeviceInfo)));
    r.push_back(S(std::string(midi::ci::property_exchange::ChannelList)));
    r.push_back(S(std::string(midi::ci::property_exchange::JSONSchema)));
    r.push_back(S(std::string(midi::ci::property_exchange::ModeList)));
    r.push_back(S(std::string(midi::ci::property_exchange::CurrentMode)));
    r.push_back(S(std::string(midi::ci::property_exchange::ProgramList)));
    r.push_back(S(std::string(midi::ci::property_exchange::ClockMode)));
    r.push_back(S(std::string(midi::ci::property_exchange::LocalOn)));
    r.push_back(S(std::string(midi::ci::property_exchange::ChannelMode)));
    r.push_back(S(std::string(midi::ci::property_exchange::BasicChannelRx)));
    r.push_back(S(std::string(midi::ci::property_exchange::BasicChannelTx)));
    r.push_back(S(std::string(midi::ci::property_exchange::MaxSysex8Streams)));
    r.push_back(S(std::string(midi::ci::property_exchange::StateList)));
    r.push_back(S(std::string(midi::ci::property_exchange::State)));
    r.push_back(S(std::string(midi::ci::property_exchange::AllCtrlList)));
    r.push_back(S(std::string(midi::ci::property_exchange::ChCtrlList)));
    r.push_back(S(std::string(midi::ci::property_exchange::CtrlMapList)));
END
int main() { return run_main(); }
