// P23: packets are handled without dynamic memory
#include "content.h"
#include <midi/channel_voice_message.h>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace midi;

namespace {
unsigned count;
struct region
{
    region() { vp_no_heap(true); }
    ~region() { vp_no_heap(false); }
};
}
// any bytes, packets as result (sysex included)
VPE(parser_packets)
{
    midi1_byte_stream_parser p{ [](universal_packet) { ++count; } };
    region                   r;
    for (unsigned i = 0; i < 12; ++i)
        p.feed(u8("byte", i));
    vp_cover("parsed");
}
// a long sysex message as packets
VPE(parser_long_sysex)
{
    midi1_byte_stream_parser p{ 3, [](universal_packet) { ++count; } };
    const uint8_t            d = u7("data", 0);
    region                   r;
    p.feed(0xF0);
    for (unsigned i = 0; i < 2000; ++i)
        p.feed(d);
    p.feed(0xF7);
    vp_cover("parsed");
}
// bytes without sysex, messages as result
VPE(parser_messages)
{
    midi1_byte_stream_parser p{ [](universal_packet) { ++count; }, [](const sysex7&) { ++count; } };
    region                   r;
    for (unsigned i = 0; i < 8; ++i)
    {
        const uint8_t b = u8("byte", i);
        vp_assume(b != 0xF0);
        p.feed(b);
    }
    p.reset();
    vp_cover("parsed");
}
VPE(to_bytes)
{
    const auto p = any_packet();
    uint8_t    b[8];
    region     r;
    vp_check(to_midi1_byte_stream(p, b) <= 8, "at most 8 bytes");
}
// packets that are no sysex pass the collectors
VPE(collectors_ignore)
{
    sysex7_collector a{ [](const sysex7&) { ++count; } };
    sysex8_collector b{ [](const sysex8&, uint8_t) { ++count; } };
    const auto       p = any_packet();
    region           r;
    vp_assume((p.data[0] >> 28) != 3);
    a.feed(p);
    vp_assume((p.data[0] >> 28) != 5);
    b.feed(p);
    a.reset();
    b.reset();
    vp_cover("fed");
}
// sending a message that is already there
VPE(send_sysex)
{
    const content c{ 64, true };
    for (unsigned n : { 0u, 1u, 5u, 6u, 13u, 64u })
        for (auto kind : { id_one, id_three })
        {
            const sysex7 m{ c.id(kind), c.data, n };
            const sysex8 e{ c.id(kind), c.data, n };
            region       r;
            send_sysex7(m, c.group, [](const universal_packet&) { ++count; });
            send_sysex8(e, c.stream, c.group, [](const universal_packet&) { ++count; });
            vp_check(m.total_data_size() >= n && m.is_7bit() && !m.empty(), "queries of a sysex message");
        }
}
