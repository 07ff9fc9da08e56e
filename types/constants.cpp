// Named constants of the public interface against the numbers assigned by the MIDI specifications (MIDI 1.0 detailed specification and
// its CA/RP addenda, UMP and MIDI 2.0 Protocol, MIDI-CI, manufacturer id list) and documented default values. Decided by the compiler's
// constant evaluator; never linked, never run. The table is an independent reference: it is not generated from the headers at check time.
#include <midi/capability_inquiry.h>
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/manufacturer.h>
#include <midi/midi1_byte_stream.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/types.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>
using namespace midi;
#define R(rule, ...) static_assert(__VA_ARGS__, "@" rule)
R("ci::message_version_1 is 0x01", ci::message_version_1 == 0x01);
R("ci::message_version_2 is 0x02", ci::message_version_2 == 0x02);
R("ci::version is 0x02", ci::version == 0x02);
R("ci::broadcast_muid is 0xfffffff", ci::broadcast_muid == 0xfffffff);
R("ci::category::profile_configuration is 0x04", ci::category::profile_configuration == 0x04);
R("ci::category::property_exchange is 0x08", ci::category::property_exchange == 0x08);
R("ci::category::process_inquiry is 0x10", ci::category::process_inquiry == 0x10);
R("ci::subtype::discovery_inquiry is 0x70", ci::subtype::discovery_inquiry == 0x70);
R("ci::subtype::discovery_reply is 0x71", ci::subtype::discovery_reply == 0x71);
R("ci::subtype::endpoint_information_inquiry is 0x72", ci::subtype::endpoint_information_inquiry == 0x72);
R("ci::subtype::endpoint_information_reply is 0x73", ci::subtype::endpoint_information_reply == 0x73);
R("ci::subtype::ack is 0x7D", ci::subtype::ack == 0x7D);
R("ci::subtype::invalidate_muid is 0x7E", ci::subtype::invalidate_muid == 0x7E);
R("ci::subtype::nak is 0x7F", ci::subtype::nak == 0x7F);
R("ci::subtype::profile_inquiry is 0x20", ci::subtype::profile_inquiry == 0x20);
R("ci::subtype::profile_inquiry_reply is 0x21", ci::subtype::profile_inquiry_reply == 0x21);
R("ci::subtype::set_profile_on is 0x22", ci::subtype::set_profile_on == 0x22);
R("ci::subtype::set_profile_off is 0x23", ci::subtype::set_profile_off == 0x23);
R("ci::subtype::profile_enabled is 0x24", ci::subtype::profile_enabled == 0x24);
R("ci::subtype::profile_disabled is 0x25", ci::subtype::profile_disabled == 0x25);
R("ci::subtype::profile_added is 0x26", ci::subtype::profile_added == 0x26);
R("ci::subtype::profile_removed is 0x27", ci::subtype::profile_removed == 0x27);
R("ci::subtype::profile_details_inquiry is 0x28", ci::subtype::profile_details_inquiry == 0x28);
R("ci::subtype::profile_details_reply is 0x29", ci::subtype::profile_details_reply == 0x29);
R("ci::subtype::profile_specific_data is 0x2F", ci::subtype::profile_specific_data == 0x2F);
R("ci::profile_destination::group is 0x7E", ci::profile_destination::group == 0x7E);
R("ci::profile_destination::function_block is 0x7F", ci::profile_destination::function_block == 0x7F);
R("ci::subtype::property_exchange_capabilities_inquiry is 0x30", ci::subtype::property_exchange_capabilities_inquiry == 0x30);
R("ci::subtype::property_exchange_capabilities_reply is 0x31", ci::subtype::property_exchange_capabilities_reply == 0x31);
R("ci::subtype::get_property_data_inquiry is 0x34", ci::subtype::get_property_data_inquiry == 0x34);
R("ci::subtype::get_property_data_reply is 0x35", ci::subtype::get_property_data_reply == 0x35);
R("ci::subtype::set_property_data_inquiry is 0x36", ci::subtype::set_property_data_inquiry == 0x36);
R("ci::subtype::set_property_data_reply is 0x37", ci::subtype::set_property_data_reply == 0x37);
R("ci::subtype::subscription_inquiry is 0x38", ci::subtype::subscription_inquiry == 0x38);
R("ci::subtype::subscription_reply is 0x39", ci::subtype::subscription_reply == 0x39);
R("ci::subtype::notify is 0x3F", ci::subtype::notify == 0x3F);
R("ci::property_exchange::version_major is 0x00", ci::property_exchange::version_major == 0x00);
R("ci::property_exchange::version_minor is 0x00", ci::property_exchange::version_minor == 0x00);
R("ci::subtype::process_inquiry_capabilities_inquiry is 0x40", ci::subtype::process_inquiry_capabilities_inquiry == 0x40);
R("ci::subtype::process_inquiry_capabilities_reply is 0x41", ci::subtype::process_inquiry_capabilities_reply == 0x41);
R("ci::subtype::midi_message_report_inquiry is 0x42", ci::subtype::midi_message_report_inquiry == 0x42);
R("ci::subtype::midi_message_report_reply is 0x43", ci::subtype::midi_message_report_reply == 0x43);
R("ci::subtype::midi_message_report_end is 0x44", ci::subtype::midi_message_report_end == 0x44);
R("jr_clock_frequency is 31250", jr_clock_frequency == 31250);
R("manufacturer::sequential_circuits is 0x010000", manufacturer::sequential_circuits == 0x010000);
R("manufacturer::moog is 0x040000", manufacturer::moog == 0x040000);
R("manufacturer::lexicon is 0x060000", manufacturer::lexicon == 0x060000);
R("manufacturer::kurzweil is 0x070000", manufacturer::kurzweil == 0x070000);
R("manufacturer::fender is 0x080000", manufacturer::fender == 0x080000);
R("manufacturer::oberheim is 0x100000", manufacturer::oberheim == 0x100000);
R("manufacturer::midi9 is 0x090000", manufacturer::midi9 == 0x090000);
R("manufacturer::simmons is 0x120000", manufacturer::simmons == 0x120000);
R("manufacturer::digidesign is 0x130000", manufacturer::digidesign == 0x130000);
R("manufacturer::fairlight is 0x140000", manufacturer::fairlight == 0x140000);
R("manufacturer::emu is 0x180000", manufacturer::emu == 0x180000);
R("manufacturer::hohner is 0x240000", manufacturer::hohner == 0x240000);
R("manufacturer::ppg is 0x290000", manufacturer::ppg == 0x290000);
R("manufacturer::wersi is 0x3B0000", manufacturer::wersi == 0x3B0000);
R("manufacturer::waldorf is 0x3E0000", manufacturer::waldorf == 0x3E0000);
R("manufacturer::kawai is 0x400000", manufacturer::kawai == 0x400000);
R("manufacturer::roland is 0x410000", manufacturer::roland == 0x410000);
R("manufacturer::korg is 0x420000", manufacturer::korg == 0x420000);
R("manufacturer::yamaha is 0x430000", manufacturer::yamaha == 0x430000);
R("manufacturer::casio is 0x440000", manufacturer::casio == 0x440000);
R("manufacturer::akai is 0x450000", manufacturer::akai == 0x450000);
R("manufacturer::fujitsu is 0x4B0000", manufacturer::fujitsu == 0x4B0000);
R("manufacturer::sony is 0x4C0000", manufacturer::sony == 0x4C0000);
R("manufacturer::teac is 0x4E0000", manufacturer::teac == 0x4E0000);
R("manufacturer::fostex is 0x510000", manufacturer::fostex == 0x510000);
R("manufacturer::zoom is 0x520000", manufacturer::zoom == 0x520000);
R("manufacturer::suzuki is 0x550000", manufacturer::suzuki == 0x550000);
R("manufacturer::educational is 0x7D0000", manufacturer::educational == 0x7D0000);
R("manufacturer::universal_non_realtime is 0x7E0000", manufacturer::universal_non_realtime == 0x7E0000);
R("manufacturer::universal_realtime is 0x7F0000", manufacturer::universal_realtime == 0x7F0000);
R("manufacturer::rane is 0x000017", manufacturer::rane == 0x000017);
R("manufacturer::allen_heath is 0x00001A", manufacturer::allen_heath == 0x00001A);
R("manufacturer::motu is 0x00003B", manufacturer::motu == 0x00003B);
R("manufacturer::atari is 0x000058", manufacturer::atari == 0x000058);
R("manufacturer::mackie is 0x000066", manufacturer::mackie == 0x000066);
R("manufacturer::amd is 0x00006F", manufacturer::amd == 0x00006F);
R("manufacturer::m_audio is 0x000105", manufacturer::m_audio == 0x000105);
R("manufacturer::microsoft is 0x00010A", manufacturer::microsoft == 0x00010A);
R("manufacturer::line6 is 0x00010C", manufacturer::line6 == 0x00010C);
R("manufacturer::cakewalk is 0x000121", manufacturer::cakewalk == 0x000121);
R("manufacturer::numark is 0x00013F", manufacturer::numark == 0x00013F);
R("manufacturer::denon is 0x00020B", manufacturer::denon == 0x00020B);
R("manufacturer::google is 0x00020D", manufacturer::google == 0x00020D);
R("manufacturer::imitone is 0x000213", manufacturer::imitone == 0x000213);
R("manufacturer::universal_audio is 0x000218", manufacturer::universal_audio == 0x000218);
R("manufacturer::sensel is 0x00021D", manufacturer::sensel == 0x00021D);
R("manufacturer::mk2_image is 0x000222", manufacturer::mk2_image == 0x000222);
R("manufacturer::bon_tempi is 0x00200B", manufacturer::bon_tempi == 0x00200B);
R("manufacturer::fatar is 0x00201A", manufacturer::fatar == 0x00201A);
R("manufacturer::pinnacle is 0x00201E", manufacturer::pinnacle == 0x00201E);
R("manufacturer::tc_electronics is 0x00201F", manufacturer::tc_electronics == 0x00201F);
R("manufacturer::doepfer is 0x002020", manufacturer::doepfer == 0x002020);
R("manufacturer::focusrite is 0x002029", manufacturer::focusrite == 0x002029);
R("manufacturer::novation is 0x002029", manufacturer::novation == 0x002029);
R("manufacturer::emagic is 0x002031", manufacturer::emagic == 0x002031);
R("manufacturer::behringer is 0x002032", manufacturer::behringer == 0x002032);
R("manufacturer::access is 0x002033", manufacturer::access == 0x002033);
R("manufacturer::terratec is 0x002036", manufacturer::terratec == 0x002036);
R("manufacturer::propellerhead is 0x00203A", manufacturer::propellerhead == 0x00203A);
R("manufacturer::klavis is 0x002047", manufacturer::klavis == 0x002047);
R("manufacturer::vermona is 0x00204D", manufacturer::vermona == 0x00204D);
R("manufacturer::nokia is 0x00204E", manufacturer::nokia == 0x00204E);
R("manufacturer::hartmann is 0x002050", manufacturer::hartmann == 0x002050);
R("manufacturer::waves is 0x002066", manufacturer::waves == 0x002066);
R("manufacturer::arturia is 0x00206B", manufacturer::arturia == 0x00206B);
R("manufacturer::hanpin is 0x002079", manufacturer::hanpin == 0x002079);
R("manufacturer::serato is 0x00207F", manufacturer::serato == 0x00207F);
R("manufacturer::presonus is 0x002103", manufacturer::presonus == 0x002103);
R("manufacturer::native_instruments is 0x002109", manufacturer::native_instruments == 0x002109);
R("manufacturer::ploytec is 0x00210D", manufacturer::ploytec == 0x00210D);
R("manufacturer::roli is 0x002110", manufacturer::roli == 0x002110);
R("manufacturer::ik_multimedia is 0x00211A", manufacturer::ik_multimedia == 0x00211A);
R("manufacturer::ableton is 0x00211D", manufacturer::ableton == 0x00211D);
R("manufacturer::bome is 0x002132", manufacturer::bome == 0x002132);
R("manufacturer::touchkeys is 0x002136", manufacturer::touchkeys == 0x002136);
R("note_management::reset is 0x01", note_management::reset == 0x01);
R("note_management::detach is 0x02", note_management::detach == 0x02);
R("note_management::detach_and_reset is 0x03", note_management::detach_and_reset == 0x03);
R("note_attribute::none is 0x00", note_attribute::none == 0x00);
R("note_attribute::manufacturer_specific is 0x000001", note_attribute::manufacturer_specific == 0x000001);
R("note_attribute::profile_specific is 0x02", note_attribute::profile_specific == 0x02);
R("note_attribute::pitch_7_9 is 0x03", note_attribute::pitch_7_9 == 0x03);
R("discovery_filter::endpoint_info is 0x01", discovery_filter::endpoint_info == 0x01);
R("discovery_filter::device_identity is 0x02", discovery_filter::device_identity == 0x02);
R("discovery_filter::endpoint_name is 0x04", discovery_filter::endpoint_name == 0x04);
R("discovery_filter::product_instance_id is 0x08", discovery_filter::product_instance_id == 0x08);
R("discovery_filter::stream_configuration is 0x10", discovery_filter::stream_configuration == 0x10);
R("discovery_filter::endpoint_all is 0x1F", discovery_filter::endpoint_all == 0x1F);
R("discovery_filter::function_block_info is 0x01", discovery_filter::function_block_info == 0x01);
R("discovery_filter::function_block_name is 0x02", discovery_filter::function_block_name == 0x02);
R("discovery_filter::function_block_all is 0x03", discovery_filter::function_block_all == 0x03);
R("function_block_options::direction_input is 0x01", function_block_options::direction_input == 0x01);
R("function_block_options::direction_output is 0x02", function_block_options::direction_output == 0x02);
R("function_block_options::bidirectional is 0x03", function_block_options::bidirectional == 0x03);
R("function_block_options::not_midi1 is 0x00", function_block_options::not_midi1 == 0x00);
R("function_block_options::midi1_unrestricted is 0x01", function_block_options::midi1_unrestricted == 0x01);
R("function_block_options::midi1_31250 is 0x02", function_block_options::midi1_31250 == 0x02);
R("function_block_options::ui_hint_as_direction is 0x00", function_block_options::ui_hint_as_direction == 0x00);
R("function_block_options::ui_hint_receiver is 0x01", function_block_options::ui_hint_receiver == 0x01);
R("function_block_options::ui_hint_sender is 0x02", function_block_options::ui_hint_sender == 0x02);
R("sysex7::uint7_max is 0x7F", sysex7::uint7_max == 0x7F);
R("sysex7::uint14_max is 0x3fff", sysex7::uint14_max == 0x3fff);
R("sysex7::uint28_max is 0xfffffff", sysex7::uint28_max == 0xfffffff);
R("utility_status::noop is 0x00", utility_status::noop == 0x00);
R("utility_status::jr_clock is 0x10", utility_status::jr_clock == 0x10);
R("utility_status::jr_timestamp is 0x20", utility_status::jr_timestamp == 0x20);
R("system_status::mtc_quarter_frame is 0xF1", system_status::mtc_quarter_frame == 0xF1);
R("system_status::song_position is 0xF2", system_status::song_position == 0xF2);
R("system_status::song_select is 0xF3", system_status::song_select == 0xF3);
R("system_status::tune_request is 0xF6", system_status::tune_request == 0xF6);
R("system_status::clock is 0xF8", system_status::clock == 0xF8);
R("system_status::start is 0xFA", system_status::start == 0xFA);
R("system_status::cont is 0xFB", system_status::cont == 0xFB);
R("system_status::stop is 0xFC", system_status::stop == 0xFC);
R("system_status::active_sense is 0xFE", system_status::active_sense == 0xFE);
R("system_status::reset is 0xFF", system_status::reset == 0xFF);
R("midi1_channel_voice_status::note_off is 0x80", midi1_channel_voice_status::note_off == 0x80);
R("midi1_channel_voice_status::note_on is 0x90", midi1_channel_voice_status::note_on == 0x90);
R("midi1_channel_voice_status::poly_pressure is 0xA0", midi1_channel_voice_status::poly_pressure == 0xA0);
R("midi1_channel_voice_status::control_change is 0xB0", midi1_channel_voice_status::control_change == 0xB0);
R("midi1_channel_voice_status::program_change is 0xC0", midi1_channel_voice_status::program_change == 0xC0);
R("midi1_channel_voice_status::channel_pressure is 0xD0", midi1_channel_voice_status::channel_pressure == 0xD0);
R("midi1_channel_voice_status::pitch_bend is 0xE0", midi1_channel_voice_status::pitch_bend == 0xE0);
R("data_status::sysex7_complete is 0x00", data_status::sysex7_complete == 0x00);
R("data_status::sysex7_start is 0x10", data_status::sysex7_start == 0x10);
R("data_status::sysex7_continue is 0x20", data_status::sysex7_continue == 0x20);
R("data_status::sysex7_end is 0x30", data_status::sysex7_end == 0x30);
R("channel_voice_status::registered_per_note_controller is 0x00", channel_voice_status::registered_per_note_controller == 0);
R("channel_voice_status::assignable_per_note_controller is 0x10", channel_voice_status::assignable_per_note_controller == 0x10);
R("channel_voice_status::registered_controller is 0x20", channel_voice_status::registered_controller == 0x20);
R("channel_voice_status::assignable_controller is 0x30", channel_voice_status::assignable_controller == 0x30);
R("channel_voice_status::relative_registered_controller is 0x40", channel_voice_status::relative_registered_controller == 0x40);
R("channel_voice_status::relative_assignable_controller is 0x50", channel_voice_status::relative_assignable_controller == 0x50);
R("channel_voice_status::per_note_pitch_bend is 0x60", channel_voice_status::per_note_pitch_bend == 0x60);
R("channel_voice_status::note_off is 0x80", channel_voice_status::note_off == 0x80);
R("channel_voice_status::note_on is 0x90", channel_voice_status::note_on == 0x90);
R("channel_voice_status::poly_pressure is 0xA0", channel_voice_status::poly_pressure == 0xA0);
R("channel_voice_status::control_change is 0xB0", channel_voice_status::control_change == 0xB0);
R("channel_voice_status::program_change is 0xC0", channel_voice_status::program_change == 0xC0);
R("channel_voice_status::channel_pressure is 0xD0", channel_voice_status::channel_pressure == 0xD0);
R("channel_voice_status::pitch_bend is 0xE0", channel_voice_status::pitch_bend == 0xE0);
R("channel_voice_status::per_note_management is 0xF0", channel_voice_status::per_note_management == 0xF0);
R("extended_data_status::sysex8_complete is 0x00", extended_data_status::sysex8_complete == 0x00);
R("extended_data_status::sysex8_start is 0x10", extended_data_status::sysex8_start == 0x10);
R("extended_data_status::sysex8_continue is 0x20", extended_data_status::sysex8_continue == 0x20);
R("extended_data_status::sysex8_end is 0x30", extended_data_status::sysex8_end == 0x30);
R("extended_data_status::mixed_data_set_header is 0x80", extended_data_status::mixed_data_set_header == 0x80);
R("extended_data_status::mixed_data_set_payload is 0x90", extended_data_status::mixed_data_set_payload == 0x90);
R("protocol::midi1 is 0x01", protocol::midi1 == 0x01);
R("protocol::midi2 is 0x02", protocol::midi2 == 0x02);
R("extensions::jitter_reduction_transmit is 0x01", extensions::jitter_reduction_transmit == 0x01);
R("extensions::jitter_reduction_receive is 0x02", extensions::jitter_reduction_receive == 0x02);
R("stream_status::endpoint_discovery is 0x00", stream_status::endpoint_discovery == 0x00);
R("stream_status::endpoint_info is 0x01", stream_status::endpoint_info == 0x01);
R("stream_status::device_identity is 0x02", stream_status::device_identity == 0x02);
R("stream_status::endpoint_name is 0x03", stream_status::endpoint_name == 0x03);
R("stream_status::product_instance_id is 0x04", stream_status::product_instance_id == 0x04);
R("stream_status::stream_configuration_request is 0x05", stream_status::stream_configuration_request == 0x05);
R("stream_status::stream_configuration_notify is 0x06", stream_status::stream_configuration_notify == 0x06);
R("stream_status::function_block_discovery is 0x10", stream_status::function_block_discovery == 0x10);
R("stream_status::function_block_info is 0x11", stream_status::function_block_info == 0x11);
R("stream_status::function_block_name is 0x12", stream_status::function_block_name == 0x12);
R("control_change::bank_select_msb is 0", control_change::bank_select_msb == 0);
R("control_change::modulation_wheel is 1", control_change::modulation_wheel == 1);
R("control_change::breath_controller is 2", control_change::breath_controller == 2);
R("control_change::foot_controller is 4", control_change::foot_controller == 4);
R("control_change::portamento_time is 5", control_change::portamento_time == 5);
R("control_change::data_entry_msb is 6", control_change::data_entry_msb == 6);
R("control_change::volume is 7", control_change::volume == 7);
R("control_change::balance is 8", control_change::balance == 8);
R("control_change::pan is 10", control_change::pan == 10);
R("control_change::expression_controller is 11", control_change::expression_controller == 11);
R("control_change::effect_control_1 is 12", control_change::effect_control_1 == 12);
R("control_change::effect_control_2 is 13", control_change::effect_control_2 == 13);
R("control_change::general_purpose_1 is 16", control_change::general_purpose_1 == 16);
R("control_change::general_purpose_2 is 17", control_change::general_purpose_2 == 17);
R("control_change::general_purpose_3 is 18", control_change::general_purpose_3 == 18);
R("control_change::general_purpose_4 is 19", control_change::general_purpose_4 == 19);
R("control_change::bank_select is 32", control_change::bank_select == 32);
R("control_change::bank_select_lsb is 32", control_change::bank_select_lsb == 32);
R("control_change::lsb is 32", control_change::lsb == 32);
R("control_change::data_entry_lsb is 38", control_change::data_entry_lsb == 38);
R("control_change::damper_pedal is 64", control_change::damper_pedal == 64);
R("control_change::sustain is 64", control_change::sustain == 64);
R("control_change::portamento_on_off is 65", control_change::portamento_on_off == 65);
R("control_change::sustenuto is 66", control_change::sustenuto == 66);
R("control_change::soft_pedal is 67", control_change::soft_pedal == 67);
R("control_change::legato_footswitch is 68", control_change::legato_footswitch == 68);
R("control_change::hold_2 is 69", control_change::hold_2 == 69);
R("control_change::sound_controller_1 is 70", control_change::sound_controller_1 == 70);
R("control_change::sound_variation is 70", control_change::sound_variation == 70);
R("control_change::sound_controller_2 is 71", control_change::sound_controller_2 == 71);
R("control_change::timbre is 71", control_change::timbre == 71);
R("control_change::harmonic_intensity is 71", control_change::harmonic_intensity == 71);
R("control_change::sound_controller_3 is 72", control_change::sound_controller_3 == 72);
R("control_change::release_time is 72", control_change::release_time == 72);
R("control_change::sound_controller_4 is 73", control_change::sound_controller_4 == 73);
R("control_change::attack_time is 73", control_change::attack_time == 73);
R("control_change::sound_controller_5 is 74", control_change::sound_controller_5 == 74);
R("control_change::brightness is 74", control_change::brightness == 74);
R("control_change::sound_controller_6 is 75", control_change::sound_controller_6 == 75);
R("control_change::decay_time is 75", control_change::decay_time == 75);
R("control_change::sound_controller_7 is 76", control_change::sound_controller_7 == 76);
R("control_change::vibrato_rate is 76", control_change::vibrato_rate == 76);
R("control_change::sound_controller_8 is 77", control_change::sound_controller_8 == 77);
R("control_change::vibrato_depth is 77", control_change::vibrato_depth == 77);
R("control_change::sound_controller_9 is 78", control_change::sound_controller_9 == 78);
R("control_change::vibrato_delay is 78", control_change::vibrato_delay == 78);
R("control_change::sound_controller_10 is 79", control_change::sound_controller_10 == 79);
R("control_change::general_purpose_5 is 80", control_change::general_purpose_5 == 80);
R("control_change::general_purpose_6 is 81", control_change::general_purpose_6 == 81);
R("control_change::general_purpose_7 is 82", control_change::general_purpose_7 == 82);
R("control_change::general_purpose_8 is 83", control_change::general_purpose_8 == 83);
R("control_change::portamento_control is 84", control_change::portamento_control == 84);
R("control_change::hi_res_velocity_prefix is 88", control_change::hi_res_velocity_prefix == 88);
R("control_change::effects_1_depth is 91", control_change::effects_1_depth == 91);
R("control_change::reverb_send_level is 91", control_change::reverb_send_level == 91);
R("control_change::effects_2_depth is 92", control_change::effects_2_depth == 92);
R("control_change::effects_3_depth is 93", control_change::effects_3_depth == 93);
R("control_change::chorus_send_level is 93", control_change::chorus_send_level == 93);
R("control_change::effects_4_depth is 94", control_change::effects_4_depth == 94);
R("control_change::effects_5_depth is 95", control_change::effects_5_depth == 95);
R("control_change::data_increment is 96", control_change::data_increment == 96);
R("control_change::data_decrement is 97", control_change::data_decrement == 97);
R("control_change::nrpn_lsb is 98", control_change::nrpn_lsb == 98);
R("control_change::nrpn_msb is 99", control_change::nrpn_msb == 99);
R("control_change::rpn_lsb is 100", control_change::rpn_lsb == 100);
R("control_change::rpn_msb is 101", control_change::rpn_msb == 101);
R("control_change::all_sound_off is 120", control_change::all_sound_off == 120);
R("control_change::reset_all_controllers is 121", control_change::reset_all_controllers == 121);
R("control_change::local_control is 122", control_change::local_control == 122);
R("control_change::all_notes_off is 123", control_change::all_notes_off == 123);
R("control_change::omni_mode_off is 124", control_change::omni_mode_off == 124);
R("control_change::omni_mode_on is 125", control_change::omni_mode_on == 125);
R("control_change::mono_mode_on is 126", control_change::mono_mode_on == 126);
R("control_change::poly_mode_off is 127", control_change::poly_mode_off == 127);
R("control_change::mono_mode_off is 127", control_change::mono_mode_off == 127);
R("control_change::poly_mode_on is 127", control_change::poly_mode_on == 127);
R("registered_parameter_number::pitch_bend_sensitivity is 0", registered_parameter_number::pitch_bend_sensitivity == 0);
R("registered_parameter_number::fine_tuning is 1", registered_parameter_number::fine_tuning == 1);
R("registered_parameter_number::coarse_tuning is 2", registered_parameter_number::coarse_tuning == 2);
R("registered_parameter_number::tuning_program_select is 3", registered_parameter_number::tuning_program_select == 3);
R("registered_parameter_number::tuning_bank_select is 4", registered_parameter_number::tuning_bank_select == 4);
R("registered_parameter_number::per_note_pitch_bend_sensitivity is 7", registered_parameter_number::per_note_pitch_bend_sensitivity == 7);
R("registered_per_note_controller::modulation is 1", registered_per_note_controller::modulation == 1);
R("registered_per_note_controller::breath is 2", registered_per_note_controller::breath == 2);
R("registered_per_note_controller::pitch_7_25 is 3", registered_per_note_controller::pitch_7_25 == 3);
R("registered_per_note_controller::volume is 7", registered_per_note_controller::volume == 7);
R("registered_per_note_controller::balance is 8", registered_per_note_controller::balance == 8);
R("registered_per_note_controller::pan is 10", registered_per_note_controller::pan == 10);
R("registered_per_note_controller::expression is 11", registered_per_note_controller::expression == 11);
R("registered_per_note_controller::sound_controller_1 is 70", registered_per_note_controller::sound_controller_1 == 70);
R("registered_per_note_controller::sound_variation is 70", registered_per_note_controller::sound_variation == 70);
R("registered_per_note_controller::sound_controller_2 is 71", registered_per_note_controller::sound_controller_2 == 71);
R("registered_per_note_controller::timbre is 71", registered_per_note_controller::timbre == 71);
R("registered_per_note_controller::harmonic_intensity is 71", registered_per_note_controller::harmonic_intensity == 71);
R("registered_per_note_controller::sound_controller_3 is 72", registered_per_note_controller::sound_controller_3 == 72);
R("registered_per_note_controller::release_time is 72", registered_per_note_controller::release_time == 72);
R("registered_per_note_controller::sound_controller_4 is 73", registered_per_note_controller::sound_controller_4 == 73);
R("registered_per_note_controller::attack_time is 73", registered_per_note_controller::attack_time == 73);
R("registered_per_note_controller::sound_controller_5 is 74", registered_per_note_controller::sound_controller_5 == 74);
R("registered_per_note_controller::brightness is 74", registered_per_note_controller::brightness == 74);
R("registered_per_note_controller::sound_controller_6 is 75", registered_per_note_controller::sound_controller_6 == 75);
R("registered_per_note_controller::decay_time is 75", registered_per_note_controller::decay_time == 75);
R("registered_per_note_controller::sound_controller_7 is 76", registered_per_note_controller::sound_controller_7 == 76);
R("registered_per_note_controller::vibrato_rate is 76", registered_per_note_controller::vibrato_rate == 76);
R("registered_per_note_controller::sound_controller_8 is 77", registered_per_note_controller::sound_controller_8 == 77);
R("registered_per_note_controller::vibrato_depth is 77", registered_per_note_controller::vibrato_depth == 77);
R("registered_per_note_controller::sound_controller_9 is 78", registered_per_note_controller::sound_controller_9 == 78);
R("registered_per_note_controller::vibrato_delay is 78", registered_per_note_controller::vibrato_delay == 78);
R("registered_per_note_controller::sound_controller_10 is 79", registered_per_note_controller::sound_controller_10 == 79);
R("registered_per_note_controller::effects_1_depth is 91", registered_per_note_controller::effects_1_depth == 91);
R("registered_per_note_controller::reverb_send_level is 91", registered_per_note_controller::reverb_send_level == 91);
R("registered_per_note_controller::effects_2_depth is 92", registered_per_note_controller::effects_2_depth == 92);
R("registered_per_note_controller::effects_3_depth is 93", registered_per_note_controller::effects_3_depth == 93);
R("registered_per_note_controller::chorus_send_level is 93", registered_per_note_controller::chorus_send_level == 93);
R("registered_per_note_controller::effects_4_depth is 94", registered_per_note_controller::effects_4_depth == 94);
R("registered_per_note_controller::effects_5_depth is 95", registered_per_note_controller::effects_5_depth == 95);
R("universal_sysex::type::sample_dump_header is 0x7e01", universal_sysex::type::sample_dump_header == 0x7e01);
R("universal_sysex::type::sample_data_packet is 0x7e02", universal_sysex::type::sample_data_packet == 0x7e02);
R("universal_sysex::type::sample_dump_request is 0x7e03", universal_sysex::type::sample_dump_request == 0x7e03);
R("universal_sysex::type::midi_time_code_non_real_time is 0x7e04", universal_sysex::type::midi_time_code_non_real_time == 0x7e04);
R("universal_sysex::type::sample_dump_extensions is 0x7e05", universal_sysex::type::sample_dump_extensions == 0x7e05);
R("universal_sysex::type::general_information is 0x7e06", universal_sysex::type::general_information == 0x7e06);
R("universal_sysex::type::file_dump is 0x7e07", universal_sysex::type::file_dump == 0x7e07);
R("universal_sysex::type::midi_tuning_non_real_time is 0x7e08", universal_sysex::type::midi_tuning_non_real_time == 0x7e08);
R("universal_sysex::type::general_midi is 0x7e09", universal_sysex::type::general_midi == 0x7e09);
R("universal_sysex::type::downloadable_sounds is 0x7e0a", universal_sysex::type::downloadable_sounds == 0x7e0a);
R("universal_sysex::type::file_reference_message is 0x7e0b", universal_sysex::type::file_reference_message == 0x7e0b);
R("universal_sysex::type::midi_visual_control is 0x7e0c", universal_sysex::type::midi_visual_control == 0x7e0c);
R("universal_sysex::type::capability_inquiry is 0x7e0d", universal_sysex::type::capability_inquiry == 0x7e0d);
R("universal_sysex::type::end_of_file is 0x7e7b", universal_sysex::type::end_of_file == 0x7e7b);
R("universal_sysex::type::wait is 0x7e7c", universal_sysex::type::wait == 0x7e7c);
R("universal_sysex::type::cancel is 0x7e7d", universal_sysex::type::cancel == 0x7e7d);
R("universal_sysex::type::nak is 0x7e7e", universal_sysex::type::nak == 0x7e7e);
R("universal_sysex::type::ack is 0x7e7f", universal_sysex::type::ack == 0x7e7f);
R("universal_sysex::type::midi_time_code_real_time is 0x7f01", universal_sysex::type::midi_time_code_real_time == 0x7f01);
R("universal_sysex::type::midi_show_control is 0x7f02", universal_sysex::type::midi_show_control == 0x7f02);
R("universal_sysex::type::notation_information is 0x7f03", universal_sysex::type::notation_information == 0x7f03);
R("universal_sysex::type::device_control is 0x7f04", universal_sysex::type::device_control == 0x7f04);
R("universal_sysex::type::real_time_mtc_cueing is 0x7f05", universal_sysex::type::real_time_mtc_cueing == 0x7f05);
R("universal_sysex::type::midi_machine_control_commands is 0x7f06", universal_sysex::type::midi_machine_control_commands == 0x7f06);
R("universal_sysex::type::midi_machine_control_responses is 0x7f07", universal_sysex::type::midi_machine_control_responses == 0x7f07);
R("universal_sysex::type::midi_tuning_real_time is 0x7f08", universal_sysex::type::midi_tuning_real_time == 0x7f08);
R("universal_sysex::type::controller_destination_setting is 0x7f09", universal_sysex::type::controller_destination_setting == 0x7f09);
R("universal_sysex::type::none is 0x00", universal_sysex::type::none == 0x00);
R("universal_sysex::subtype::identity_request is 0x01", universal_sysex::subtype::identity_request == 0x01);
R("universal_sysex::subtype::identity_reply is 0x02", universal_sysex::subtype::identity_reply == 0x02);
R("universal_sysex::subtype::gm_1_system_on is 0x01", universal_sysex::subtype::gm_1_system_on == 0x01);
R("universal_sysex::subtype::gm_system_off is 0x02", universal_sysex::subtype::gm_system_off == 0x02);
R("universal_sysex::subtype::gm_2_system_on is 0x03", universal_sysex::subtype::gm_2_system_on == 0x03);
R("universal_sysex::subtype::mtc_full_message is 0x01", universal_sysex::subtype::mtc_full_message == 0x01);
R("universal_sysex::subtype::mtc_user_bits is 0x02", universal_sysex::subtype::mtc_user_bits == 0x02);
R("packet_type::utility is 0x00", unsigned(packet_type::utility) == 0x00);
R("packet_type::system is 0x01", unsigned(packet_type::system) == 0x01);
R("packet_type::midi1_channel_voice is 0x02", unsigned(packet_type::midi1_channel_voice) == 0x02);
R("packet_type::data is 0x03", unsigned(packet_type::data) == 0x03);
R("packet_type::midi2_channel_voice is 0x04", unsigned(packet_type::midi2_channel_voice) == 0x04);
R("packet_type::extended_data is 0x05", unsigned(packet_type::extended_data) == 0x05);
R("packet_type::flex_data is 0x0D", unsigned(packet_type::flex_data) == 0x0D);
R("packet_type::stream is 0x0F", unsigned(packet_type::stream) == 0x0F);
R("packet_format::complete is 0x00", unsigned(packet_format::complete) == 0x00);
R("packet_format::start is 0x01", unsigned(packet_format::start) == 0x01);
R("packet_format::cont is 0x02", unsigned(packet_format::cont) == 0x02);
R("packet_format::end is 0x03", unsigned(packet_format::end) == 0x03);
R("packet_address::channel is 0x00", unsigned(packet_address::channel) == 0x00);
R("packet_address::group is 0x01", unsigned(packet_address::group) == 0x01);

// ---- default values of objects
R("a default velocity is the centre", velocity{}.value == 0x8000);
R("a default pitch bend is the centre", pitch_bend{}.value == 0x80000000u);
R("a default pitch increment is zero", pitch_increment{}.value == 0);
R("a default 7.9 pitch is zero", pitch_7_9{}.value == 0);
R("a default 7.25 pitch is zero", pitch_7_25{}.value == 0);
R("a default controller increment is zero", controller_increment{}.value == 0);
R("a default controller value is zero", controller_value{}.value == 0);
R("a default packet is a noop", universal_packet{}.data[0] == 0 && universal_packet{}.data[1] == 0 && universal_packet{}.data[2] == 0 && universal_packet{}.data[3] == 0);
R("a default profile destination is the function block", ci::profile_destination{}.scope == 0x7F && ci::profile_destination{}.num_channels == 0);
R("group_profile addresses the group", ci::group_profile.scope == 0x7E && ci::group_profile.num_channels == 0);
R("function_block_profile addresses the function block", ci::function_block_profile.scope == 0x7F && ci::function_block_profile.num_channels == 0);
R("a channel profile spans one channel unless told otherwise", ci::channel_profile(5).scope == 5 && ci::channel_profile(5).num_channels == 1);
R("a channel profile spans the given channels", ci::channel_profile(5, 3).scope == 5 && ci::channel_profile(5, 3).num_channels == 3);
// ---- default arguments
template<typename A, typename B>
constexpr bool words(const A& a, const B& b) { return a.data[0] == b.data[0] && a.data[1] == b.data[1] && a.data[2] == b.data[2] && a.data[3] == b.data[3]; }
R("omitted system data bytes are zero", words(make_system_message(3, 0xF2), make_system_message(3, 0xF2, 0, 0)) && words(system_message(3, 0xF2), make_system_message(3, 0xF2, 0, 0)));
R("omitted MIDI 1 data bytes are zero", words(midi1_channel_voice_message(3, 0x92), universal_packet(0x23920000u)) && words(make_midi1_channel_voice_message(3, 0xC0, 2, 7), universal_packet(0x23C20700u)));
R("an omitted MIDI 1 note off velocity is the centre", words(make_midi1_note_off_message(3, 2, 60), universal_packet(0x23823C40u)));
R("an omitted note attribute is none", words(make_midi2_note_on_message(3, 2, 60, velocity{ uint16_t(0x1234) }), universal_packet(0x43923C00u, 0x12340000u)));
R("an omitted utility payload is zero", words(utility_message(0x10), universal_packet(0x00100000u)));
R("omitted flex data words are zero", words(make_flex_data_message(3, packet_format::complete, packet_address::channel, 2, 1, 2), universal_packet(0xD3020102u)));
R("a default flex data message has group 0", words(flex_data_message{}, universal_packet(0xD0000000u)));
R("the default UMP version of endpoint discovery is 1.1", words(make_endpoint_discovery_message(0x1F), make_endpoint_discovery_message(0x1F, 1, 1)));
R("the default UMP version of endpoint info is 1.1", words(make_endpoint_info_message(5, false, 1, 0), make_endpoint_info_message(5, false, 1, 0, 1, 1)));
R("a function block spans one group unless told otherwise", words(make_function_block_info_message(3, 2, 4), make_function_block_info_message(3, 2, 4, 1)) && words(make_function_block_info_message(3, function_block_options{}, 4), make_function_block_info_message(3, function_block_options{}, 4, 1)));
R("a function block is active, bidirectional and not MIDI 1 unless told otherwise", function_block_options{}.active && function_block_options{}.direction == 3 && function_block_options{}.midi1 == 0 && function_block_options{}.ui_hint == 0 && function_block_options{}.ci_message_version == 0 && function_block_options{}.max_num_sysex8_streams == 0);
// ---- names used in property exchange
R("tag resource", ci::property_exchange::tags::resource == std::string_view("resource"));
R("tag command", ci::property_exchange::tags::command == std::string_view("command"));
R("tag status", ci::property_exchange::tags::status == std::string_view("status"));
R("tag id", ci::property_exchange::tags::id == std::string_view("id"));
R("tag offset", ci::property_exchange::tags::offset == std::string_view("offset"));
R("tag limit", ci::property_exchange::tags::limit == std::string_view("limit"));
R("tag encoding", ci::property_exchange::tags::encoding == std::string_view("encoding"));
R("tag message", ci::property_exchange::tags::message == std::string_view("message"));
R("tag subscribeId", ci::property_exchange::tags::subscribeId == std::string_view("subscribeId"));
R("resource name ResourceList", ci::property_exchange::ResourceList == std::string_view("ResourceList"));
R("resource name DeviceInfo", ci::property_exchange::DeviceInfo == std::string_view("DeviceInfo"));
R("resource name ChannelList", ci::property_exchange::ChannelList == std::string_view("ChannelList"));
R("resource name JSONSchema", ci::property_exchange::JSONSchema == std::string_view("JSONSchema"));
R("resource name ModeList", ci::property_exchange::ModeList == std::string_view("ModeList"));
R("resource name CurrentMode", ci::property_exchange::CurrentMode == std::string_view("CurrentMode"));
R("resource name ProgramList", ci::property_exchange::ProgramList == std::string_view("ProgramList"));
R("resource name ClockMode", ci::property_exchange::ClockMode == std::string_view("ClockMode"));
R("resource name LocalOn", ci::property_exchange::LocalOn == std::string_view("LocalOn"));
R("resource name ChannelMode", ci::property_exchange::ChannelMode == std::string_view("ChannelMode"));
R("resource name BasicChannelRx", ci::property_exchange::BasicChannelRx == std::string_view("BasicChannelRx"));
R("resource name BasicChannelTx", ci::property_exchange::BasicChannelTx == std::string_view("BasicChannelTx"));
R("resource name MaxSysex8Streams", ci::property_exchange::MaxSysex8Streams == std::string_view("MaxSysex8Streams"));
R("resource name StateList", ci::property_exchange::StateList == std::string_view("StateList"));
R("resource name State", ci::property_exchange::State == std::string_view("State"));
R("resource name AllCtrlList", ci::property_exchange::AllCtrlList == std::string_view("AllCtrlList"));
R("resource name ChCtrlList", ci::property_exchange::ChCtrlList == std::string_view("ChCtrlList"));
R("resource name CtrlMapList", ci::property_exchange::CtrlMapList == std::string_view("CtrlMapList"));
