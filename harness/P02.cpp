// P02: wire layout of the system / utility / channel voice / data message factories
// oracle: message formats of the UMP and MIDI 2.0 protocol specification, written out per message
#include "packet.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
#include <midi/jitter_reduction_timestamps.h>
using namespace midi;

// group and channel are passed as full bytes: only their low nibble may appear in the packet
static uint32_t head(unsigned type, unsigned group, unsigned b1, unsigned b2, unsigned b3)
{
    return (uint32_t(type) << 28) | (uint32_t(group & 0xF) << 24) | (uint32_t(b1 & 0xFF) << 16) | (uint32_t(b2 & 0xFF) << 8) | uint32_t(b3 & 0xFF);
}

VPE(utility)
{
    const uint8_t  s = u8("status");
    const uint16_t d = u16("data");
    words(make_utility_message(s, d), head(0, 0, s, d >> 8, d), 0, 0, 0, "make_utility_message layout");
    words(utility_message(s, d), head(0, 0, s, d >> 8, d), 0, 0, 0, "utility_message constructor layout");
}
VPE(system)
{
    const uint8_t g = u8("group"), s = u8("status"), a = u7("d1"), b = u7("d2");
    words(make_system_message(g, s, a, b), head(1, g, s, a, b), 0, 0, 0, "make_system_message layout");
    words(make_system_message(g, s, a), head(1, g, s, a, 0), 0, 0, 0, "make_system_message (one data byte) layout");
    words(make_system_message(g, s), head(1, g, s, 0, 0), 0, 0, 0, "make_system_message (no data byte) layout");
    words(system_message(), head(1, 0, 0, 0, 0), 0, 0, 0, "default system_message layout");
    const uint16_t pos = u16("position");
    words(make_song_position_message(g, pos), head(1, g, 0xF2, pos & 0x7F, (pos >> 7) & 0x7F), 0, 0, 0, "make_song_position_message layout");
}
VPE(midi1_generic)
{
    const uint8_t g = u8("group"), c = u8("channel"), a = u8("d1"), b = u8("d2"), st = u4("status");
    words(make_midi1_channel_voice_message(g, uint8_t(st << 4), c, a, b), head(2, g, (st << 4) | (c & 0xF), a & 0x7F, b & 0x7F), 0, 0, 0, "make_midi1_channel_voice_message layout");
    words(make_midi1_channel_voice_message(g, uint8_t(st << 4), c, a), head(2, g, (st << 4) | (c & 0xF), a & 0x7F, 0), 0, 0, 0, "make_midi1_channel_voice_message (one data byte) layout");
    const uint8_t s8 = u8("status8"), d1 = u7("data1"), d2 = u7("data2");
    words(midi1_channel_voice_message(g, s8, d1, d2), head(2, g, s8, d1, d2), 0, 0, 0, "midi1_channel_voice_message constructor layout");
}
VPE(midi1_messages)
{
    const uint8_t  g = u8("group"), c = u8("channel"), n = u8("index");
    const uint16_t v = u16("velocity");
    const uint32_t x = u32("value");
    const unsigned ch = c & 0xF;
    words(make_midi1_note_off_message(g, c, n, velocity{ v }), head(2, g, 0x80 | ch, n & 0x7F, v >> 9), 0, 0, 0, "make_midi1_note_off_message layout");
    words(make_midi1_note_on_message(g, c, n, velocity{ v }), head(2, g, 0x90 | ch, n & 0x7F, v >> 9), 0, 0, 0, "make_midi1_note_on_message layout");
    words(make_midi1_poly_pressure_message(g, c, n, controller_value{ x }), head(2, g, 0xA0 | ch, n & 0x7F, x >> 25), 0, 0, 0, "make_midi1_poly_pressure_message layout");
    words(make_midi1_control_change_message(g, c, n, controller_value{ x }), head(2, g, 0xB0 | ch, n & 0x7F, x >> 25), 0, 0, 0, "make_midi1_control_change_message layout");
    words(make_midi1_program_change_message(g, c, n), head(2, g, 0xC0 | ch, n & 0x7F, 0), 0, 0, 0, "make_midi1_program_change_message layout");
    words(make_midi1_channel_pressure_message(g, c, controller_value{ x }), head(2, g, 0xD0 | ch, x >> 25, 0), 0, 0, 0, "make_midi1_channel_pressure_message layout");
    words(make_midi1_pitch_bend_message(g, c, pitch_bend{ x }), head(2, g, 0xE0 | ch, (x >> 18) & 0x7F, x >> 25), 0, 0, 0, "make_midi1_pitch_bend_message layout");
}
VPE(midi2_generic)
{
    const uint8_t  g = u8("group"), c = u8("channel"), a = u8("index1"), b = u8("index2"), s = u8("status");
    const uint32_t d = u32("data");
    words(make_midi2_channel_voice_message(g, s, c, a, b, d), head(4, g, (s & 0xF0) | (c & 0xF), a, b), d, 0, 0, "make_midi2_channel_voice_message layout");
    words(midi2_channel_voice_message(g, s, c, a, b, d), head(4, g, (s & 0xF0) | (c & 0xF), a, b), d, 0, 0, "midi2_channel_voice_message constructor layout");
}
VPE(midi2_notes)
{
    const uint8_t  g = u8("group"), c = u8("channel"), n = u7("note"), at = u8("attribute");
    const uint16_t v = u16("velocity"), ad = u16("attribute_data");
    const unsigned ch = c & 0xF;
    const uint32_t v32 = uint32_t(v) << 16;
    words(make_midi2_note_off_message(g, c, n, velocity{ v }), head(4, g, 0x80 | ch, n, 0), v32, 0, 0, "make_midi2_note_off_message layout");
    words(make_midi2_note_off_message(g, c, n, velocity{ v }, at, ad), head(4, g, 0x80 | ch, n, at), v32 | ad, 0, 0, "make_midi2_note_off_message with attribute layout");
    const uint8_t n8 = u8("note8");
    words(make_midi2_note_off_message(g, c, n8, velocity{ v }, at, ad), head(4, g, 0x80 | ch, n8 & 0x7F, at), v32 | ad, 0, 0, "make_midi2_note_off_message with attribute layout");
    words(make_midi2_note_on_message(g, c, n, velocity{ v }), head(4, g, 0x90 | ch, n, 0), v32, 0, 0, "make_midi2_note_on_message layout");
    words(make_midi2_note_on_message(g, c, n, velocity{ v }, at, ad), head(4, g, 0x90 | ch, n, at), v32 | ad, 0, 0, "make_midi2_note_on_message with attribute layout");
    words(make_midi2_note_on_message(g, c, n, velocity{ v }, pitch_7_9{ ad }), head(4, g, 0x90 | ch, n, 3), v32 | ad, 0, 0, "make_midi2_note_on_message with pitch 7.9 layout");
}
VPE(midi2_messages)
{
    const uint8_t  g = u8("group"), c = u8("channel"), n = u7("note"), ix = u8("controller"), fl = u8("flags");
    const uint8_t  cc = u8("cc"), bank = u8("bank"), idx = u8("index");
    const uint32_t x = u32("value");
    const unsigned ch = c & 0xF;
    words(make_midi2_poly_pressure_message(g, c, n, controller_value{ x }), head(4, g, 0xA0 | ch, n, 0), x, 0, 0, "make_midi2_poly_pressure_message layout");
    words(make_registered_per_note_controller_message(g, c, n, ix, controller_value{ x }), head(4, g, 0x00 | ch, n, ix), x, 0, 0, "make_registered_per_note_controller_message layout");
    words(make_assignable_per_note_controller_message(g, c, n, ix, controller_value{ x }), head(4, g, 0x10 | ch, n, ix), x, 0, 0, "make_assignable_per_note_controller_message layout");
    words(make_per_note_management_message(g, c, n, fl), head(4, g, 0xF0 | ch, n, fl), 0, 0, 0, "make_per_note_management_message layout");
    words(make_midi2_control_change_message(g, c, cc, controller_value{ x }), head(4, g, 0xB0 | ch, cc & 0x7F, 0), x, 0, 0, "make_midi2_control_change_message layout");
    words(make_registered_controller_message(g, c, bank, idx, controller_value{ x }), head(4, g, 0x20 | ch, bank & 0x7F, idx & 0x7F), x, 0, 0, "make_registered_controller_message layout");
    words(make_assignable_controller_message(g, c, bank, idx, controller_value{ x }), head(4, g, 0x30 | ch, bank & 0x7F, idx & 0x7F), x, 0, 0, "make_assignable_controller_message layout");
    words(make_relative_registered_controller_message(g, c, bank, idx, controller_increment{ int32_t(x) }), head(4, g, 0x40 | ch, bank & 0x7F, idx & 0x7F), x, 0, 0, "make_relative_registered_controller_message layout");
    words(make_relative_assignable_controller_message(g, c, bank, idx, controller_increment{ int32_t(x) }), head(4, g, 0x50 | ch, bank & 0x7F, idx & 0x7F), x, 0, 0, "make_relative_assignable_controller_message layout");
    words(make_midi2_channel_pressure_message(g, c, controller_value{ x }), head(4, g, 0xD0 | ch, 0, 0), x, 0, 0, "make_midi2_channel_pressure_message layout");
    words(make_midi2_pitch_bend_message(g, c, pitch_bend{ x }), head(4, g, 0xE0 | ch, 0, 0), x, 0, 0, "make_midi2_pitch_bend_message layout");
    words(make_per_note_pitch_bend_message(g, c, n, pitch_bend{ x }), head(4, g, 0x60 | ch, n, 0), x, 0, 0, "make_per_note_pitch_bend_message layout");
}
VPE(midi2_program)
{
    const uint8_t  g = u8("group"), c = u8("channel"), p = u8("program");
    const uint16_t bank = u16("bank");
    const unsigned ch = c & 0xF;
    words(make_midi2_program_change_message(g, c, p), head(4, g, 0xC0 | ch, 0, 0), uint32_t(p & 0x7F) << 24, 0, 0, "make_midi2_program_change_message layout");
    words(make_midi2_program_change_message(g, c, p, bank), head(4, g, 0xC0 | ch, 0, 1), (uint32_t(p & 0x7F) << 24) | (uint32_t((bank >> 7) & 0x7F) << 8) | (bank & 0x7F), 0, 0, "make_midi2_program_change_message with bank layout");
}
VPE(sysex_packets)
{
    const uint8_t g = u8("group"), id = u8("stream_id");
    words(make_sysex7_complete_packet(g), head(3, g, 0x00, 0, 0), 0, 0, 0, "make_sysex7_complete_packet layout");
    words(make_sysex7_start_packet(g), head(3, g, 0x10, 0, 0), 0, 0, 0, "make_sysex7_start_packet layout");
    words(make_sysex7_continue_packet(g), head(3, g, 0x20, 0, 0), 0, 0, 0, "make_sysex7_continue_packet layout");
    words(make_sysex7_end_packet(g), head(3, g, 0x30, 0, 0), 0, 0, 0, "make_sysex7_end_packet layout");
    words(make_sysex8_complete_packet(id, g), head(5, g, 0x01, id, 0), 0, 0, 0, "make_sysex8_complete_packet layout");
    words(make_sysex8_start_packet(id, g), head(5, g, 0x11, id, 0), 0, 0, 0, "make_sysex8_start_packet layout");
    words(make_sysex8_continue_packet(id, g), head(5, g, 0x21, id, 0), 0, 0, 0, "make_sysex8_continue_packet layout");
    words(make_sysex8_end_packet(id, g), head(5, g, 0x31, id, 0), 0, 0, 0, "make_sysex8_end_packet layout");
    words(sysex8_packet(), head(5, 0, 0x01, 0, 0), 0, 0, 0, "default sysex8_packet layout");
    words(sysex7_packet(), head(3, 0, 0, 0, 0), 0, 0, 0, "default sysex7_packet layout");
}
VPE(sysex7_payload)
{
    // building up a packet: every payload byte lands in its slot with bit 7 cleared, the count follows
    const uint8_t fmt = vp_sym("format", 2, 8), g = u8("group");
    auto          p = sysex7_packet(uint8_t(fmt << 4), g);
    uint8_t       d[6];
    for (unsigned n = 0; n < 6; ++n)
    {
        d[n] = u8("byte");
        p.add_payload_byte(d[n]);
        vp_eq(p.payload_size(), n + 1, "sysex7_packet::add_payload_byte counts the payload");
        vp_eq(p.data[0] >> 20, (0x300u | (g & 0xFu) << 4 | fmt), "sysex7_packet::add_payload_byte keeps type, group and format");
        vp_eq((p.data[0] >> 16) & 0xF, n + 1, "sysex7_packet payload size is the low status nibble");
        for (unsigned i = 0; i < 8 - 2; ++i)
            vp_eq((p.data[(i + 2) / 4] >> (8 * (3 - (i + 2) % 4))) & 0xFF, i <= n ? (d[i] & 0x7F) : 0, "sysex7_packet::add_payload_byte appends one 7-bit byte and keeps the others");
        for (unsigned i = 0; i <= n; ++i)
            vp_eq(p.payload_byte(i), d[i] & 0x7F, "sysex7_packet::payload_byte reads back what was added");
    }
    vp_eq(p.data[2] | p.data[3], 0, "sysex7_packet uses two words only");
}
VPE(sysex7_set)
{
    auto p = sysex7_packet(uint8_t(vp_sym("format", 2, 8) << 4), u8("group"));
    p.data[0] |= u8("b2") << 8 | u8("b3");
    p.data[1] = u32("w1");
    const auto    q = p;
    const uint8_t v = u8("v");
    for (unsigned b = 0; b < 6; ++b)
    {
        auto r = q;
        r.set_payload_byte(b, v);
        for (unsigned i = 0; i < 16; ++i)
            vp_eq((r.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF, i == b + 2 ? (v & 0x7F) : ((q.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF), "sysex7_packet::set_payload_byte changes only its byte");
    }
    for (unsigned n = 0; n <= 6; ++n)
    {
        auto r = q;
        r.set_payload_size(n);
        words(r, (q.data[0] & 0xFFF0FFFFu) | (n << 16), q.data[1], q.data[2], q.data[3], "sysex7_packet::set_payload_size changes only the count");
        vp_eq(r.payload_size(), n, "sysex7_packet::payload_size reads back");
        vp_eq(uint64_t(r.format()), (q.data[0] >> 20) & 3, "sysex7_packet::format is kept");
    }
}
VPE(sysex8_payload)
{
    const uint8_t fmt = vp_sym("format", 2, 8), g = u8("group"), id = u8("stream_id");
    auto          p = sysex8_packet(uint8_t(fmt << 4), id, g);
    uint8_t       d[13];
    for (unsigned n = 0; n < 13; ++n)
    {
        d[n] = u8("byte");
        p.add_payload_byte(d[n]);
        vp_eq(p.payload_size(), n + 1, "sysex8_packet::add_payload_byte counts the payload");
        vp_eq(p.stream_id(), id, "sysex8_packet::add_payload_byte keeps the stream id");
        vp_eq(p.data[0] >> 20, (0x500u | (g & 0xFu) << 4 | fmt), "sysex8_packet::add_payload_byte keeps type, group and format");
        vp_eq((p.data[0] >> 16) & 0xF, n + 2, "sysex8_packet byte count is payload plus stream id");
        for (unsigned i = 0; i < 13; ++i)
            vp_eq((p.data[(i + 3) / 4] >> (8 * (3 - (i + 3) % 4))) & 0xFF, i <= n ? d[i] : 0, "sysex8_packet::add_payload_byte appends one byte and keeps the others");
        for (unsigned i = 0; i <= n; ++i)
            vp_eq(p.payload_byte(i), d[i], "sysex8_packet::payload_byte reads back what was added");
    }
}
VPE(sysex8_set)
{
    auto p = sysex8_packet(uint8_t(vp_sym("format", 2, 8) << 4), u8("stream_id"), u8("group"));
    p.data[0] |= u8("b3");
    p.data[1] = u32("w1");
    p.data[2] = u32("w2");
    p.data[3] = u32("w3");
    const auto    q = p;
    const uint8_t v = u8("v");
    for (unsigned b = 0; b < 13; ++b)
    {
        auto r = q;
        r.set_payload_byte(b, v);
        for (unsigned i = 0; i < 16; ++i)
            vp_eq((r.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF, i == b + 3 ? v : ((q.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF), "sysex8_packet::set_payload_byte changes only its byte");
    }
    for (unsigned n = 0; n <= 13; ++n)
    {
        auto r = q;
        r.set_payload_size(n);
        words(r, (q.data[0] & 0xFFF0FFFFu) | ((n + 1) << 16), q.data[1], q.data[2], q.data[3], "sysex8_packet::set_payload_size changes only the count");
        vp_eq(r.payload_size(), n, "sysex8_packet::payload_size reads back");
        vp_eq(uint64_t(r.format()), (q.data[0] >> 20) & 3, "sysex8_packet::format is kept");
    }
    auto r = q;
    r.set_stream_id(v);
    words(r, (q.data[0] & 0xFFFF00FFu) | (uint32_t(v) << 8), q.data[1], q.data[2], q.data[3], "sysex8_packet::set_stream_id changes only the stream id");
}

VPE(from_packet)
{
    universal_packet p{ u32("w0"), u32("w1"), u32("w2"), u32("w3") };
    const auto       q = p;
    if (p.data[0] >> 28 == 2)
        words(midi1_channel_voice_message(p), p.data[0], p.data[1], p.data[2], p.data[3], "midi1_channel_voice_message of a packet is the packet");
    if (p.data[0] >> 28 == 4)
        words(midi2_channel_voice_message(p), p.data[0], p.data[1], p.data[2], p.data[3], "midi2_channel_voice_message of a packet is the packet");
    const universal_packet moved = std::move(p);
    words(moved, q.data[0], q.data[1], q.data[2], q.data[3], "a moved packet keeps its words");
    universal_packet assigned;
    assigned = universal_packet{ q };
    words(assigned, q.data[0], q.data[1], q.data[2], q.data[3], "an assigned packet keeps its words");
}
VPE(default_messages)
{
    const uint8_t st = u8("status");
    words(data_message(), 0x30000000u, 0, 0, 0, "default data_message");
    words(data_message(st), head(3, 0, st, 0, 0), 0, 0, 0, "data_message constructor layout");
    words(extended_data_message(), 0x50000000u, 0, 0, 0, "default extended_data_message");
    words(extended_data_message(st), head(5, 0, st, 0, 0), 0, 0, 0, "extended_data_message constructor layout");
    words(system_message(), 0x10000000u, 0, 0, 0, "default system_message");
    words(utility_message(), 0, 0, 0, 0, "default utility_message");
    words(sysex7_packet(), 0x30000000u, 0, 0, 0, "default sysex7_packet");
    words(sysex8_packet(), 0x50010000u, 0, 0, 0, "default sysex8_packet");
}
