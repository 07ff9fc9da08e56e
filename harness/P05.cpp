// P05: what views and protocol independent getters read from any packet of their kind
#include "packet.h"
#include "scale.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace midi;

static universal_packet typed(unsigned t)
{
    auto p    = any_packet();
    p.data[0] = (p.data[0] & 0x0FFFFFFFu) | (t << 28);
    return p;
}
static uint8_t byte_at(const universal_packet& p, unsigned i) { return uint8_t(p.data[i / 4] >> (8 * (3 - i % 4))); }

VPE(views)
{
    {
        const auto          p = typed(0);
        utility_message_view v{ p };
        vp_eq(v.status(), byte_at(p, 1), "utility view status");
        vp_eq(v.payload(), p.data[0] & 0xFFFF, "utility view payload");
    }
    {
        const auto p = typed(1);
        const auto v = *as_system_message_view(p);
        vp_eq(v.group(), (p.data[0] >> 24) & 0xF, "system view group");
        vp_eq(v.status(), byte_at(p, 1), "system view status");
        vp_eq(v.data_byte_1(), byte_at(p, 2) & 0x7F, "system view data byte 1");
        vp_eq(v.data_byte_2(), byte_at(p, 3) & 0x7F, "system view data byte 2");
        vp_eq(v.get_song_position(), byte_at(p, 1) == 0xF2 ? ((byte_at(p, 2) & 0x7F) | ((byte_at(p, 3) & 0x7F) << 7)) : 0, "system view song position");
    }
    {
        const auto p = typed(2);
        const auto v = *as_midi1_channel_voice_message_view(p);
        vp_eq(v.group(), (p.data[0] >> 24) & 0xF, "MIDI 1 view group");
        vp_eq(v.status(), byte_at(p, 1) & 0xF0, "MIDI 1 view status");
        vp_eq(v.channel(), byte_at(p, 1) & 0xF, "MIDI 1 view channel");
        vp_eq(v.data_byte_1(), byte_at(p, 2) & 0x7F, "MIDI 1 view data byte 1");
        vp_eq(v.data_byte_2(), byte_at(p, 3) & 0x7F, "MIDI 1 view data byte 2");
        vp_eq(v.get_14bit_value(), (byte_at(p, 2) & 0x7F) | ((byte_at(p, 3) & 0x7F) << 7), "MIDI 1 view 14 bit value is LSB first");
    }
    {
        const auto p = typed(4);
        const auto v = *as_midi2_channel_voice_message_view(p);
        vp_eq(v.group(), (p.data[0] >> 24) & 0xF, "MIDI 2 view group");
        vp_eq(v.status(), byte_at(p, 1) & 0xF0, "MIDI 2 view status");
        vp_eq(v.channel(), byte_at(p, 1) & 0xF, "MIDI 2 view channel");
        vp_eq(v.byte3() & 0x7F, byte_at(p, 2) & 0x7F, "MIDI 2 view byte 3");
        vp_eq(v.byte4() & 0x7F, byte_at(p, 3) & 0x7F, "MIDI 2 view byte 4");
        vp_eq(v.data(), p.data[1], "MIDI 2 view data");
    }
    {
        const auto p = typed(0xD);
        const auto v = *as_flex_data_message_view(p);
        vp_eq(v.group(), (p.data[0] >> 24) & 0xF, "flex view group");
        vp_eq(unsigned(v.format()), byte_at(p, 1) >> 6, "flex view format");
        vp_eq(unsigned(v.address()), (byte_at(p, 1) >> 4) & 3, "flex view address");
        vp_eq(v.channel(), byte_at(p, 1) & 0xF, "flex view channel");
        vp_eq(v.status_bank(), byte_at(p, 2), "flex view status bank");
        vp_eq(v.status(), byte_at(p, 3), "flex view status");
        vp_eq(v.data1(), p.data[1], "flex view data 1");
        vp_eq(v.data2(), p.data[2], "flex view data 2");
        vp_eq(v.data3(), p.data[3], "flex view data 3");
    }
}
VPE(sysex_views)
{
    {
        const auto p = typed(3);
        if (auto v = as_sysex7_packet_view(p))
        {
            vp_eq(v->group(), (p.data[0] >> 24) & 0xF, "sysex7 view group");
            vp_eq(v->status(), byte_at(p, 1) & 0xF0, "sysex7 view status");
            vp_eq(unsigned(v->format()), byte_at(p, 1) >> 4, "sysex7 view format");
            vp_eq(v->payload_size(), byte_at(p, 1) & 0xF, "sysex7 view payload size");
            for (unsigned i = 0; i < 6; ++i)
                vp_eq(v->payload_byte(i), byte_at(p, 2 + i), "sysex7 view payload byte");
        }
    }
    {
        const auto p = typed(5);
        if (auto v = as_sysex8_packet_view(p))
        {
            vp_eq(v->group(), (p.data[0] >> 24) & 0xF, "sysex8 view group");
            vp_eq(unsigned(v->format()), byte_at(p, 1) >> 4, "sysex8 view format");
            vp_eq(v->stream_id(), byte_at(p, 2), "sysex8 view stream id");
            vp_eq(v->payload_size(), (byte_at(p, 1) & 0xF) - 1, "sysex8 view payload size");
            for (unsigned i = 0; i < 13; ++i)
                vp_eq(v->payload_byte(i), byte_at(p, 3 + i), "sysex8 view payload byte");
        }
    }
}
VPE(stream_views)
{
    const auto p = typed(0xF);
    vp_assume(((p.data[0] >> 24) & 3) == 0);
    if (auto v = as_endpoint_discovery_view(p))
    {
        vp_eq(v->ump_version(), p.data[0] & 0xFFFF, "endpoint discovery view version");
        vp_eq(v->filter(), p.data[1] & 0x1F, "endpoint discovery view filter");
    }
    if (auto v = as_endpoint_info_view(p))
    {
        vp_eq(v->ump_version(), p.data[0] & 0xFFFF, "endpoint info view version");
        vp_eq(v->ump_version_major(), byte_at(p, 2), "endpoint info view major version");
        vp_eq(v->ump_version_minor(), byte_at(p, 3), "endpoint info view minor version");
        vp_eq(v->num_function_blocks(), byte_at(p, 4) & 0x7F, "endpoint info view number of function blocks");
        vp_eq(v->static_function_blocks(), byte_at(p, 4) >> 7, "endpoint info view static function blocks");
        vp_eq(v->protocols(), byte_at(p, 6) & 3, "endpoint info view protocols");
        vp_eq(v->extensions(), byte_at(p, 7) & 3, "endpoint info view extensions");
    }
    if (auto v = as_device_identity_view(p))
    {
        auto       s7 = [&](unsigned i) { return unsigned(byte_at(p, i) & 0x7F); };
        const auto d  = v->identity();
        vp_eq(d.manufacturer, p.data[1] & 0x7F7F7Fu, "device identity view manufacturer");
        vp_eq(d.family, s7(8) | s7(9) << 7, "device identity view family");
        vp_eq(d.model, s7(10) | s7(11) << 7, "device identity view model");
        vp_eq(d.revision, s7(12) | s7(13) << 7 | s7(14) << 14 | s7(15) << 21, "device identity view revision");
    }
    if (auto v = as_endpoint_name_view(p))
        vp_eq(unsigned(v->format()), (p.data[0] >> 26) & 3, "endpoint name view format");
    if (auto v = as_product_instance_id_view(p))
        vp_eq(unsigned(v->format()), (p.data[0] >> 26) & 3, "product instance id view format");
    if (auto v = as_stream_configuration_view(p))
    {
        vp_eq(v->protocol(), byte_at(p, 2) & 3, "stream configuration view protocol");
        vp_eq(v->extensions(), byte_at(p, 3) & 3, "stream configuration view extensions");
    }
    if (auto v = as_function_block_discovery_view(p))
    {
        const uint8_t b = u8("block");
        vp_eq(v->function_block(), byte_at(p, 2), "function block discovery view block");
        vp_eq(v->requests_function_block(b), byte_at(p, 2) == 0xFF || byte_at(p, 2) == b, "function block discovery view: all blocks or exactly this one");
        vp_eq(v->requests_info(), byte_at(p, 3) & 1, "function block discovery view info flag");
        vp_eq(v->requests_name(), (byte_at(p, 3) >> 1) & 1, "function block discovery view name flag");
    }
    if (auto v = as_function_block_info_view(p))
    {
        vp_eq(v->active(), byte_at(p, 2) >> 7, "function block info view active");
        vp_eq(v->function_block(), byte_at(p, 2) & 0x7F, "function block info view block");
        vp_eq(v->direction(), byte_at(p, 3) & 3, "function block info view direction");
        vp_eq(v->midi1(), (byte_at(p, 3) >> 2) & 3, "function block info view midi1");
        vp_eq(v->ui_hint(), (byte_at(p, 3) >> 4) & 3, "function block info view ui hint");
        vp_eq(v->first_group(), byte_at(p, 4), "function block info view first group");
        vp_eq(v->num_groups_spanned(), byte_at(p, 5), "function block info view groups spanned");
        vp_eq(v->ci_message_version(), byte_at(p, 6), "function block info view ci version");
        vp_eq(v->max_num_sysex8_streams(), byte_at(p, 7), "function block info view sysex8 streams");
    }
    if (auto v = as_function_block_name_view(p))
    {
        vp_eq(unsigned(v->format()), (p.data[0] >> 26) & 3, "function block name view format");
        vp_eq(v->function_block(), byte_at(p, 2) & 0x7F, "function block name view block");
    }
}
// getters that hide the protocol: a MIDI 1 message (data bytes in range) reads as its up-scaled value
VPE(getters_midi1)
{
    universal_packet p{ 0x20000000u | (uint32_t(u4("group")) << 24) | (uint32_t(u8("status")) << 16) | (uint32_t(u7("d1")) << 8) | u7("d2") };
    const unsigned   d1 = byte_at(p, 2), d2 = byte_at(p, 3), st = byte_at(p, 1);
    vp_eq(p.channel(), st & 0xF, "channel");
    vp_eq(get_note_nr(p), d1, "MIDI 1 note number");
    vp_eq(get_note_pitch(p).value, d1 << 9, "MIDI 1 note pitch is the note number");
    vp_eq(get_note_velocity(p).value, scale_up((st & 0xF0) == 0x90 && d2 == 0 ? 64 : d2, 7, 16), "MIDI 1 velocity, note on with velocity 0 reads as 64");
    vp_eq(get_poly_pressure_value(p).value, scale_up(d2, 7, 32), "MIDI 1 poly pressure value");
    vp_eq(get_controller_nr(p), d1, "MIDI 1 controller number");
    vp_eq(get_controller_value(p).value, scale_up(d2, 7, 32), "MIDI 1 controller value");
    vp_eq(get_program_value(p), d1, "MIDI 1 program");
    vp_eq(get_channel_pressure_value(p).value, scale_up(d1, 7, 32), "MIDI 1 channel pressure value");
    vp_eq(get_channel_pitch_bend_value(p).value, scale_up(d1 | (d2 << 7), 14, 32), "MIDI 1 pitch bend value");
}
VPE(getters_midi2)
{
    const auto     p  = typed(4);
    const unsigned b3 = byte_at(p, 2), b4 = byte_at(p, 3), st = byte_at(p, 1) & 0xF0;
    vp_eq(p.channel(), byte_at(p, 1) & 0xF, "channel");
    vp_eq(get_note_nr(p), b3 & 0x7F, "MIDI 2 note number");
    vp_eq(get_note_pitch(p).value, st == 0x90 && b4 == 3 ? (p.data[1] & 0xFFFF) : (b3 & 0x7F) << 9, "MIDI 2 note pitch: attribute 7.9 or the note number");
    vp_eq(get_note_velocity(p).value, p.data[1] >> 16, "MIDI 2 velocity");
    vp_eq(get_poly_pressure_value(p).value, p.data[1], "MIDI 2 poly pressure value");
    vp_eq(get_controller_nr(p), b3 & 0x7F, "MIDI 2 controller number");
    vp_eq(get_controller_value(p).value, p.data[1], "MIDI 2 controller value");
    vp_eq(get_program_value(p), (p.data[1] >> 24) & 0x7F, "MIDI 2 program");
    vp_eq(get_channel_pressure_value(p).value, p.data[1], "MIDI 2 channel pressure value");
    vp_eq(get_channel_pitch_bend_value(p).value, p.data[1], "MIDI 2 pitch bend value");
    vp_eq(get_midi2_note_attribute(p), b4, "MIDI 2 note attribute");
    vp_eq(get_midi2_note_attribute_data(p), p.data[1] & 0xFFFF, "MIDI 2 note attribute data");
    vp_eq(get_per_note_controller_index(p), b4, "per note controller index");
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
    vp_eq(get_midi2_per_note_controller_index(p), b4, "per note controller index (older name)");
#pragma clang diagnostic pop
    vp_eq(get_per_note_pitch_bend_value(p).value, p.data[1], "per note pitch bend value");
    vp_eq(get_pitch_bend_sensitivity_value(p).value, p.data[1] & 0xFFFC0000u, "pitch bend sensitivity is 7.7");
    vp_eq(get_per_note_pitch_bend_sensitivity_value(p).value, p.data[1], "per note pitch bend sensitivity is 7.25");
}
VPE(getters_factories)
{
    // what a factory wrote is what the getter reads, MIDI 2 with no loss
    const uint8_t  g = u4("group"), c = u4("channel"), n = u7("note"), cc = u7("cc");
    const uint16_t v = u16("velocity"), pitch = u16("pitch");
    const uint32_t x = u32("value");
    const auto     on = make_midi2_note_on_message(g, c, n, velocity{ v }, pitch_7_9{ pitch });
    vp_check(is_note_on_message(on) && is_note_on_with_pitch_7_9(on), "note on is a note on");
    vp_eq(get_note_nr(on), n, "note on reads back: note");
    vp_eq(get_note_velocity(on).value, v, "note on reads back: velocity");
    vp_eq(get_note_pitch(on).value, pitch, "note on reads back: pitch");
    const auto k = make_midi2_control_change_message(g, c, cc, controller_value{ x });
    vp_check(is_control_change_message(k), "control change is a control change");
    vp_eq(get_controller_nr(k), cc, "control change reads back: controller");
    vp_eq(get_controller_value(k).value, x, "control change reads back: value");
    const auto pc = make_midi2_program_change_message(g, c, cc, u14("bank"));
    vp_eq(get_program_value(pc), cc, "program change reads back");
    const auto pb = make_midi2_pitch_bend_message(g, c, pitch_bend{ x });
    vp_eq(get_channel_pitch_bend_value(pb).value, x, "pitch bend reads back");
    const auto pr = make_midi2_channel_pressure_message(g, c, controller_value{ x });
    vp_eq(get_channel_pressure_value(pr).value, x, "channel pressure reads back");
    const auto pp = make_midi2_poly_pressure_message(g, c, n, controller_value{ x });
    vp_eq(get_poly_pressure_value(pp).value, x, "poly pressure reads back");
    for (auto* q : { &on, &k, &pc, &pb, &pr, &pp })
    {
        vp_eq(q->group(), g, "group reads back");
        vp_eq(q->channel(), c, "channel reads back");
    }
}
