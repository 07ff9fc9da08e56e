// P20: messages survive the way packets -> MIDI 1 bytes -> packets / messages
#include "content.h"
#include <midi/midi1_byte_stream.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include "large.h"
using namespace midi;

namespace {
template<typename F>
void bytes_of(const sysex7& m, uint8_t group, F&& f)
{
    send_sysex7(m, group, [&f](const universal_packet& p) {
        uint8_t      b[8] = {};
        const size_t n    = to_midi1_byte_stream(p, b);
        vp_check(n <= 8, "a packet has at most 8 bytes");
        for (size_t i = 0; i < n; ++i)
            f(b[i]);
    });
}
void framed(const content& c, unsigned size, id_kind kind)
{
    uint8_t  raw[1100];
    unsigned n = 0;
    bytes_of(sysex7{ c.id(kind), c.data, size }, c.group, [&](uint8_t b) { raw[n++] = b; });
    const unsigned ids = kind == id_one ? 1 : 3;
    vp_eq(n, 2 + ids + size, "a sysex message takes F0, id, data and F7");
    vp_eq(raw[0], 0xF0, "a sysex message starts with F0");
    vp_eq(raw[n - 1], 0xF7, "a sysex message ends with F7");
    for (unsigned i = 0; i < size; ++i)
        vp_eq(raw[1 + ids + i], c.data[i], "the data bytes of a sysex message keep their order");
}
void as_messages(const content& c, unsigned size, id_kind kind)
{
    const sysex7             m{ c.id(kind), c.data, size };
    received<sysex7>         r;
    unsigned                 others = 0;
    midi1_byte_stream_parser q{ c.group, [&](universal_packet) { ++others; }, [&r](const sysex7& x) { r(x); } };
    for (unsigned i = 0; i < 2; ++i)
        bytes_of(m, c.group, [&q](uint8_t b) { q.feed(b); });
    vp_eq(others, 0, "a sysex message gives no other packets");
    vp_eq(r.n, 2, "every sysex message gets through the byte stream once");
    for (unsigned i = 0; i < 2; ++i)
        same_message(r.m[i], c.id(kind), c.data, size, "a sysex message gets through the byte stream unchanged");
}
void as_packets(const content& c, unsigned size, id_kind kind)
{
    const sysex7             m{ c.id(kind), c.data, size };
    received<sysex7>         r;
    sysex7_collector         k{ [&r](const sysex7& x) { r(x); } };
    midi1_byte_stream_parser q{ c.group, [&](universal_packet p) {
                                   vp_eq(p.group(), c.group, "packets made from bytes have the parser's group");
                                   k.feed(p);
                               } };
    for (unsigned i = 0; i < 2; ++i)
        bytes_of(m, c.group, [&q](uint8_t b) { q.feed(b); });
    vp_eq(r.n, 2, "every sysex message gets through bytes, packets and collector once");
    for (unsigned i = 0; i < 2; ++i)
        same_message(r.m[i], c.id(kind), c.data, size, "a sysex message gets through bytes, packets and collector unchanged");
}
void sizes(unsigned from, unsigned to)
{
    const content c{ to, true };
    for (unsigned n = from; n <= to; ++n)
        for (auto kind : { id_one, id_three, id_three_low })
        {
            framed(c, n, kind);
            as_messages(c, n, kind);
            as_packets(c, n, kind);
        }
}
} // namespace

VPE(sysex_0_20) { sizes(0, 20); }
VPE(sysex_21_40) { sizes(21, 40); }
VPE(sysex_128) { sizes(122, 134); }
VPE(sysex_256) { sizes(254, 260); }
#if VP_THOROUGH
VPE(sysex_41_80) { sizes(41, 80); }
VPE(sysex_81_121) { sizes(81, 121); }
VPE(sysex_512) { sizes(508, 520); }
VPE(sysex_1024) { sizes(1018, 1024); }
#endif
// every channel voice and system message
VPE(short_messages)
{
    const uint8_t    g = u4("group"), status = u8("status", 1), d1 = u7("d1"), d2 = u7("d2");
    vp_assume(status >= 0x80 && status != 0xF0 && status != 0xF4 && status != 0xF5 && status != 0xF7 && status != 0xF9 && status != 0xFD);
    const bool       one = (status & 0xF0) == 0xC0 || (status & 0xF0) == 0xD0 || status == 0xF1 || status == 0xF3;
    const bool       two = (status < 0xF0 && !one) || status == 0xF2;
    const uint32_t   word = (status < 0xF0 ? 0x20000000u : 0x10000000u) | uint32_t(g) << 24 | uint32_t(status) << 16 | (one || two ? uint32_t(d1) << 8 : 0) | (two ? d2 : 0);
    universal_packet p{ word };
    uint8_t          b[8] = {};
    const size_t     n    = to_midi1_byte_stream(p, b);
    universal_packet last;
    unsigned         count = 0;
    midi1_byte_stream_parser q{ g, [&](universal_packet x) { last = x; ++count; } };
    for (size_t i = 0; i < 3; ++i)
        if (i < n)
            q.feed(b[i]);
    vp_eq(count, 1, "every channel voice and system message gets through the byte stream once");
    same_words(last, p, "every channel voice and system message gets through the byte stream unchanged");
}

// large messages through all parts: sender, bytes, parser, collector
static void large_way(unsigned size, bool one)
{
    const large c{ true };
    const auto  m = c.message<sysex7>(one, size);
    unsigned    direct = 0, packets = 0;
    const auto  check  = [&](const sysex7& x) {
        vp_eq(x.manufacturerID, c.id(one), "a large sysex message keeps its manufacturer id");
        vp_eq(x.data.size(), size, "a large sysex message gets through with all its bytes");
        for (unsigned i = 0; i < size; ++i)
            vp_eq(x.data[i], c.at(i), "a large sysex message gets through unchanged");
    };
    midi1_byte_stream_parser a{ c.group, [](universal_packet) {}, [&](const sysex7& x) { ++direct; check(x); } };
    sysex7_collector         k{ [&](const sysex7& x) { ++packets; check(x); } };
    midi1_byte_stream_parser b{ c.group, [&](universal_packet p) { k.feed(p); } };
    bytes_of(m, c.group, [&](uint8_t x) { a.feed(x); b.feed(x); });
    vp_eq(direct, 1, "a large sysex message gets through the byte stream once");
    vp_eq(packets, 1, "a large sysex message gets through bytes, packets and collector once");
}
VPE(large_1024) { for (unsigned n = 1021; n < 1027; ++n) large_way(n, n & 1); }
VPE(large_20000) { large_way(20000, true); }
VPE(large_70000) { large_way(70000, false); }
