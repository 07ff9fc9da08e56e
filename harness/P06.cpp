// P06: translation between MIDI 1 and MIDI 2 channel voice messages
// oracle: default translation of the UMP specification (appendix D), restricted to what the library documents
#include "packet.h"
#include "scale.h"
#include <midi/channel_voice_message.h>
using namespace midi;

static bool reserved_cc(unsigned c)
{
    return c == 0 || c == 6 || c == 32 || c == 38 || c == 88 || (c >= 98 && c <= 101);
}
VPE(midi1_to_midi2)
{
    const unsigned   g = u4("group", 4), op = u4("opcode", 2), ch = u4("channel", 4), d1 = u7("d1", 3), d2 = u7("d2", 3);
    universal_packet p{ 0x20000000u | (g << 24) | (op << 20) | (ch << 16) | (d1 << 8) | d2 };
    const auto       r = as_midi2_channel_voice_message(midi1_channel_voice_message_view{ p });
    const bool       drop = op < 8 || op == 15 || (op == 0xB && reserved_cc(d1));
    vp_eq(r.has_value(), !drop, "MIDI 1 to 2: every message is translated except reserved controllers and undefined statuses");
    if (r)
    {
        const bool     off  = op == 8 || (op == 9 && d2 == 0);
        const unsigned nop  = op == 9 && d2 == 0 ? 8 : op;
        const unsigned vel  = op == 9 && d2 == 0 ? 64 : d2;
        const uint32_t w0   = 0x40000000u | (g << 24) | (nop << 20) | (ch << 16) | (op == 8 || op == 9 || op == 0xA || op == 0xB ? d1 << 8 : 0);
        (void)off;
        uint32_t w1 = 0;
        switch (op)
        {
        case 0x8: case 0x9: w1 = scale_up(vel, 7, 16) << 16; break;
        case 0xA: case 0xB: w1 = scale_up(d2, 7, 32); break;
        case 0xC: w1 = d1 << 24; break;
        case 0xD: w1 = scale_up(d1, 7, 32); break;
        case 0xE: w1 = scale_up(d1 | (d2 << 7), 14, 32); break;
        }
        vp_eq(r->data[0], w0, "MIDI 1 to 2: type, group, status, channel and index (note on with velocity 0 becomes note off)");
        vp_eq(r->data[1], w1, "MIDI 1 to 2: value is up-scaled (note on with velocity 0 gets velocity 64)");
        vp_eq(r->data[2] | r->data[3], 0, "MIDI 1 to 2: two words only");
    }
}
VPE(midi2_to_midi1)
{
    const unsigned   g = u4("group", 4), op = u4("opcode", 2), ch = u4("channel", 4), b3 = u7("b3", 3), b4 = u7("b4", 3);
    const uint32_t   d = u32("data", 5);
    universal_packet p{ 0x40000000u | (g << 24) | (op << 20) | (ch << 16) | (b3 << 8) | b4, d };
    const auto       r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ p });
    const bool       keep = ((op == 8 || op == 9) && b4 == 0) || op == 0xA || (op == 0xB && !reserved_cc(b3)) || (op == 0xC && (b4 & 1) == 0) || op == 0xD || op == 0xE;
    vp_eq(r.has_value(), keep, "MIDI 2 to 1: only messages that MIDI 1 can express are translated");
    if (r)
    {
        unsigned d1 = b3, d2 = 0;
        switch (op)
        {
        case 0x8: d2 = d >> 25; break;
        case 0x9: d2 = (d >> 25) == 0 ? 1 : d >> 25; break;
        case 0xA: case 0xB: d2 = d >> 25; break;
        case 0xC: d1 = (d >> 24) & 0x7F; break;
        case 0xD: d1 = d >> 25; break;
        case 0xE: d1 = (d >> 18) & 0x7F, d2 = d >> 25; break;
        }
        vp_eq(r->data[0], 0x20000000u | (g << 24) | (op << 20) | (ch << 16) | (d1 << 8) | d2, "MIDI 2 to 1: type, group, status, channel, index and down-scaled value; a note on never gets velocity 0");
        vp_eq(r->data[1] | r->data[2] | r->data[3], 0, "MIDI 2 to 1: one word only");
        vp_eq(is_note_on_message(*r), is_note_on_message(p), "MIDI 2 to 1: a note on stays a note on");
        vp_eq(is_note_off_message(*r), is_note_off_message(p), "MIDI 2 to 1: a note off stays a note off");
    }
}
VPE(there_and_back)
{
    const unsigned   g = u4("group", 4), op = u4("opcode", 2), ch = u4("channel", 4), d1 = u7("d1", 3), d2 = u7("d2", 3);
    universal_packet p{ 0x20000000u | (g << 24) | (op << 20) | (ch << 16) | (d1 << 8) | d2 };
    vp_assume(op != 0xC && op != 0xD || d2 == 0);
    const auto r = as_midi2_channel_voice_message(midi1_channel_voice_message_view{ p });
    if (r)
    {
        const auto s = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ *r });
        vp_check(s.has_value(), "MIDI 1 to 2 to 1: the result can be translated back");
        if (op == 9 && d2 == 0)
            vp_eq(s->data[0], 0x20000000u | (g << 24) | (0x80u << 16) | (ch << 16) | (d1 << 8) | 64, "MIDI 1 to 2 to 1: note on with velocity 0 comes back as note off 64");
        else
            vp_eq(s->data[0], p.data[0], "MIDI 1 to 2 to 1 is the identity");
    }
}
VPE(wide_attribute)
{
    // note attribute types are 8 bit wide
    const unsigned   g = u4("group", 4), ch = u4("channel", 4), b3 = u7("b3", 3), b4 = u8("b4", 3);
    const bool       on = ubool("on");
    universal_packet p{ 0x40000000u | (g << 24) | ((on ? 9u : 8u) << 20) | (ch << 16) | (b3 << 8) | b4, u32("data", 5) };
    const auto       r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ p });
    if (b4 == 0x80)
        vp_check(!r.has_value(), "MIDI 2 to 1: a note with attribute type 80h is not translated");
    else
        vp_eq(r.has_value(), b4 == 0, "MIDI 2 to 1: a note is translated iff it has no attribute");
}
