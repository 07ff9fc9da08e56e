// P04: classification of arbitrary packets: every predicate and every as_..._view accepts exactly its message kind
#include "packet.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace midi;

static unsigned ty(const universal_packet& p) { return p.data[0] >> 28; }
static unsigned st(const universal_packet& p) { return (p.data[0] >> 16) & 0xFF; }
static unsigned op(const universal_packet& p) { return (p.data[0] >> 20) & 0xF; }
static unsigned b3(const universal_packet& p) { return (p.data[0] >> 8) & 0xFF; }
static unsigned b4(const universal_packet& p) { return p.data[0] & 0xFF; }

VPE(by_type)
{
    const auto p = any_packet();
    vp_eq(p.is_utility_message(), ty(p) == 0, "is_utility_message iff type 0");
    vp_eq(p.is_system_message(), ty(p) == 1, "is_system_message (member) iff type 1");
    vp_eq(is_system_message(p), ty(p) == 1, "is_system_message iff type 1");
    vp_eq(p.is_channel_voice_message(), ty(p) == 2 || ty(p) == 4, "is_channel_voice_message iff type 2 or 4");
    vp_eq(p.is_data_message(), ty(p) == 3 || ty(p) == 5, "is_data_message (member) iff type 3 or 5");
    vp_eq(is_data_message(p), ty(p) == 3, "is_data_message iff type 3");
    vp_eq(is_extended_data_message(p), ty(p) == 5, "is_extended_data_message iff type 5");
    vp_eq(is_midi1_channel_voice_message(p), ty(p) == 2, "is_midi1_channel_voice_message iff type 2");
    vp_eq(is_midi2_channel_voice_message(p), ty(p) == 4, "is_midi2_channel_voice_message iff type 4");
    vp_eq(is_flex_data_message(p), ty(p) == 0xD, "is_flex_data_message iff type D");
    vp_eq(is_stream_message(p), ty(p) == 0xF, "is_stream_message iff type F");
    vp_eq(p.has_channel(), ty(p) == 2 || ty(p) == 4 || ty(p) == 0xD, "has_channel iff channel voice or flex data");
    vp_eq(as_system_message_view(p).has_value(), ty(p) == 1, "as_system_message_view iff type 1");
    vp_eq(as_midi1_channel_voice_message_view(p).has_value(), ty(p) == 2, "as_midi1_channel_voice_message_view iff type 2");
    vp_eq(as_midi2_channel_voice_message_view(p).has_value(), ty(p) == 4, "as_midi2_channel_voice_message_view iff type 4");
    vp_eq(as_flex_data_message_view(p).has_value(), ty(p) == 0xD, "as_flex_data_message_view iff type D");
}
VPE(midi1_protocol)
{
    const auto     p = any_packet();
    const unsigned s = st(p);
    const bool     sys = s == 0xF1 || s == 0xF2 || s == 0xF3 || s == 0xF6 || s == 0xF8 || s == 0xFA || s == 0xFB || s == 0xFC || s == 0xFE || s == 0xFF;
    vp_eq(p.is_midi1_protocol_message(), (ty(p) == 1 && sys) || (ty(p) == 2 && s >= 0x80 && s < 0xF0), "is_midi1_protocol_message iff a defined MIDI 1 system or channel voice status");
}
VPE(sysex)
{
    const auto     p = any_packet();
    const unsigned n = st(p) & 0xF;
    const bool     s7 = ty(p) == 3 && op(p) <= 3 && n <= 6, s8 = ty(p) == 5 && op(p) <= 3 && n >= 1 && n <= 14;
    vp_eq(is_sysex7_packet(p), s7, "is_sysex7_packet iff data message, sysex format, at most 6 bytes");
    vp_eq(as_sysex7_packet_view(p).has_value(), s7, "as_sysex7_packet_view iff sysex7 packet");
    vp_eq(is_sysex8_packet(p), s8, "is_sysex8_packet iff extended data message, sysex format, 1 to 14 bytes");
    vp_eq(as_sysex8_packet_view(p).has_value(), s8, "as_sysex8_packet_view iff sysex8 packet");
}
VPE(channel_voice)
{
    const auto p  = any_packet();
    const bool cv = ty(p) == 2 || ty(p) == 4;
    const bool off1 = ty(p) == 2 && op(p) == 9 && b4(p) == 0;
    const bool on = is_note_on_message(p), off = is_note_off_message(p);
    vp_eq(on, cv && op(p) == 9 && !off1, "is_note_on_message iff note on, except MIDI 1 with velocity 0");
    vp_eq(off, (cv && op(p) == 8) || off1, "is_note_off_message iff note off or MIDI 1 note on with velocity 0");
    vp_check(!(on && off), "note on and note off are exclusive");
    vp_eq(is_poly_pressure_message(p), cv && op(p) == 0xA, "is_poly_pressure_message");
    vp_eq(is_control_change_message(p), cv && op(p) == 0xB, "is_control_change_message");
    vp_eq(is_program_change_message(p), cv && op(p) == 0xC, "is_program_change_message");
    vp_eq(is_channel_pressure_message(p), cv && op(p) == 0xD, "is_channel_pressure_message");
    vp_eq(is_channel_pitch_bend_message(p), cv && op(p) == 0xE, "is_channel_pitch_bend_message");
    const uint8_t q = uint8_t(u4("status") << 4);
    vp_eq(is_channel_voice_message_with_status(p, q), cv && op(p) == (q >> 4), "is_channel_voice_message_with_status");
    const unsigned kinds = unsigned(on) + off + is_poly_pressure_message(p) + is_control_change_message(p) + is_program_change_message(p) +
                           is_channel_pressure_message(p) + is_channel_pitch_bend_message(p);
    vp_check(kinds <= 1, "channel voice predicates are mutually exclusive");
    if (ty(p) == 2 && op(p) >= 8 && op(p) <= 0xE)
        vp_check(kinds == 1, "every MIDI 1 channel voice message has exactly one kind");
}
VPE(midi2)
{
    const auto p = any_packet();
    const bool m = ty(p) == 4;
    vp_eq(is_registered_controller_message(p), m && op(p) == 2, "is_registered_controller_message");
    vp_eq(is_assignable_controller_message(p), m && op(p) == 3, "is_assignable_controller_message");
    vp_eq(is_registered_per_note_controller_message(p), m && op(p) == 0, "is_registered_per_note_controller_message");
    vp_eq(is_registered_per_note_controller_pitch_message(p), m && op(p) == 0 && b4(p) == 3, "is_registered_per_note_controller_pitch_message");
    vp_eq(is_assignable_per_note_controller_message(p), m && op(p) == 1, "is_assignable_per_note_controller_message");
    vp_eq(is_per_note_pitch_bend_message(p), m && op(p) == 6, "is_per_note_pitch_bend_message");
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
    vp_eq(is_midi2_registered_controller_message(p), m && op(p) == 2, "is_midi2_registered_controller_message");
    vp_eq(is_midi2_assignable_controller_message(p), m && op(p) == 3, "is_midi2_assignable_controller_message");
    vp_eq(is_midi2_registered_per_note_controller_message(p), m && op(p) == 0, "is_midi2_registered_per_note_controller_message");
    vp_eq(is_midi2_assignable_per_note_controller_message(p), m && op(p) == 1, "is_midi2_assignable_per_note_controller_message");
    vp_eq(is_midi2_per_note_pitch_bend_message(p), m && op(p) == 6, "is_midi2_per_note_pitch_bend_message");
#pragma clang diagnostic pop
    const uint8_t a = u8("attribute");
    vp_eq(is_note_on_with_attribute(p, a), m && op(p) == 9 && b4(p) == a, "is_note_on_with_attribute");
    vp_eq(is_note_off_with_attribute(p, a), m && op(p) == 8 && b4(p) == a, "is_note_off_with_attribute");
    vp_eq(is_note_on_with_pitch_7_9(p), m && op(p) == 9 && b4(p) == 3, "is_note_on_with_pitch_7_9");
    vp_eq(is_pitch_bend_sensitivity_message(p), m && op(p) == 2 && b3(p) == 0 && b4(p) == 0, "is_pitch_bend_sensitivity_message");
    vp_eq(is_per_note_pitch_bend_sensitivity_message(p), m && op(p) == 2 && b3(p) == 0 && b4(p) == 7, "is_per_note_pitch_bend_sensitivity_message");
}
VPE(stream)
{
    const auto p = any_packet();
    // the two reserved status bits 8 and 9 of stream messages are zero in every defined message
    vp_assume(ty(p) != 0xF || ((p.data[0] >> 24) & 3) == 0);
    const bool     m = ty(p) == 0xF;
    const unsigned s = st(p);
    vp_eq(as_endpoint_discovery_view(p).has_value(), m && s == 0x00, "as_endpoint_discovery_view iff stream status 00");
    vp_eq(as_endpoint_info_view(p).has_value(), m && s == 0x01, "as_endpoint_info_view iff stream status 01");
    vp_eq(as_device_identity_view(p).has_value(), m && s == 0x02, "as_device_identity_view iff stream status 02");
    vp_eq(as_endpoint_name_view(p).has_value(), m && s == 0x03, "as_endpoint_name_view iff stream status 03");
    vp_eq(as_product_instance_id_view(p).has_value(), m && s == 0x04, "as_product_instance_id_view iff stream status 04");
    vp_eq(as_stream_configuration_view(p).has_value(), m && (s == 0x05 || s == 0x06), "as_stream_configuration_view iff stream status 05 or 06");
    vp_eq(as_function_block_discovery_view(p).has_value(), m && s == 0x10, "as_function_block_discovery_view iff stream status 10");
    vp_eq(as_function_block_info_view(p).has_value(), m && s == 0x11, "as_function_block_info_view iff stream status 11");
    vp_eq(as_function_block_name_view(p).has_value(), m && s == 0x12, "as_function_block_name_view iff stream status 12");
}
