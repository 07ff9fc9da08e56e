// P15: MIDI 1 byte stream parsing of arbitrary byte sequences
#include "packet.h"
#include <midi/midi1_byte_stream.h>
#include "large.h"
using namespace midi;

namespace {

// reference: the MIDI 1.0 byte stream grammar
struct reference
{
    uint8_t  group = 0;
    bool     as_messages = false; // sysex delivered as messages instead of packets
    // channel voice / system common in progress
    uint8_t  status = 0, need = 0, have = 0, d1 = 0;
    // sysex in progress
    bool     sysex  = false;
    unsigned raw    = 0; // sysex bytes since start
    uint8_t  bytes[40];
    unsigned sent   = 0; // sysex bytes already sent in packets

    bool     emit = false, deliver = false;
    uint32_t w0 = 0, w1 = 0;
    unsigned packets = 0, messages = 0;

    void post(uint32_t a, uint32_t b = 0)
    {
        emit = true;
        w0   = a | uint32_t(group) << 24;
        w1   = b;
        ++packets;
    }
    void post_sysex(unsigned format, unsigned n)
    {
        uint8_t b[6] = {};
        for (unsigned i = 0; i < 6; ++i)
            if (i < n)
                b[i] = bytes[sent + i];
        post(0x30000000u | format << 20 | n << 16 | uint32_t(b[0]) << 8 | b[1], uint32_t(b[2]) << 24 | uint32_t(b[3]) << 16 | uint32_t(b[4]) << 8 | b[5]);
    }
    void feed(uint8_t b)
    {
        emit = deliver = false;
        if (b >= 0xF8)
        {
            if (b != 0xF9 && b != 0xFD)
                post(0x10000000u | uint32_t(b) << 16);
        }
        else if (b >= 0x80)
        {
            if (sysex && b == 0xF7)
            {
                sysex = false;
                if (as_messages)
                {
                    if (raw >= 3 || (raw >= 1 && bytes[0] != 0))
                    {
                        deliver = true;
                        ++messages;
                    }
                }
                else if (sent)
                    post_sysex(3, raw - sent);
                else if (raw)
                    post_sysex(0, raw);
                status = 0;
                return;
            }
            sysex  = false;
            status = b;
            have   = 0;
            if (b < 0xF0)
                need = ((b & 0xF0) == 0xC0 || (b & 0xF0) == 0xD0) ? 1 : 2;
            else if (b == 0xF1 || b == 0xF3)
                need = 1;
            else if (b == 0xF2)
                need = 2;
            else
            {
                status = 0;
                if (b == 0xF6)
                    post(0x10F60000u);
                if (b == 0xF0)
                {
                    sysex = true;
                    raw = sent = 0;
                }
            }
        }
        else if (sysex)
        {
            bytes[raw++] = b;
            if (!as_messages && raw - sent == 6)
            {
                post_sysex(sent ? 2 : 1, 6);
                sent += 6;
            }
        }
        else if (status)
        {
            if (++have < need)
                d1 = b;
            else
            {
                post((status < 0xF0 ? 0x20000000u : 0x10000000u) | uint32_t(status) << 16 | (need == 1 ? uint32_t(b) << 8 : uint32_t(d1) << 8 | b));
                have = 0;
                if (status >= 0xF0)
                    status = 0;
            }
        }
    }
};

void compare(const sysex7& m, const reference& r)
{
    const bool     one = r.bytes[0] != 0;
    const unsigned id  = one ? 1 : 3;
    vp_eq(m.manufacturerID, one ? uint32_t(r.bytes[0]) << 16 : (uint32_t(r.bytes[1]) << 8) | r.bytes[2], "sysex message: manufacturer id");
    vp_eq(m.data.size(), r.raw - id, "sysex message: number of data bytes");
    for (unsigned i = 0; i < 24; ++i)
        if (i + id < r.raw)
            vp_eq(m.data[i], r.bytes[i + id], "sysex message: data bytes in order");
}

struct world
{
    reference r;
    unsigned  packets = 0, messages = 0;
    midi1_byte_stream_parser parser;

    explicit world(bool as_messages, uint8_t group)
      : parser(
          group,
          [this](universal_packet p) {
              ++packets;
              vp_check(r.emit, "a packet is posted only when the bytes complete one");
              words(p, r.w0, r.w1, 0, 0, "posted packet carries type, group, status and data of the bytes received");
          },
          as_messages ? midi1_byte_stream_parser::sysex_callback([this](const sysex7& m) {
              ++messages;
              vp_check(r.deliver, "a sysex message is delivered only when its F7 arrives");
              compare(m, r);
          })
                      : midi1_byte_stream_parser::sysex_callback{})
    {
        r.group       = group;
        r.as_messages = as_messages;
        vp_eq(parser.group(), group, "the parser's group");
    }
    void feed(uint8_t b)
    {
        r.feed(b);
        parser.feed(b);
        counts();
    }
    void counts()
    {
        vp_eq(packets, r.packets, "every completed message is posted exactly once");
        vp_eq(messages, r.messages, "every completed sysex message is delivered exactly once");
    }
};

template<int K>
void sequence(bool as_messages)
{
    world w{ as_messages, u4("group", 0) };
    for (int k = 0; k < K; ++k)
        w.feed(u8("byte", 1 + k));
}
// a prefix of given bytes, then arbitrary ones
template<int K>
void after(bool as_messages, std::initializer_list<uint8_t> prefix)
{
    world w{ as_messages, u4("group", 0) };
    for (auto b : prefix)
        w.feed(b);
    for (int k = 0; k < K; ++k)
        w.feed(u8("byte", 1 + k));
}
} // namespace

VPE(any_8) { sequence<8>(false); }
VPE(any_16) { sequence<16>(false); }
VPE(any_8_messages) { sequence<8>(true); }
VPE(any_16_messages) { sequence<16>(true); }
#if VP_THOROUGH
VPE(any_26) { sequence<26>(false); }
VPE(any_26_messages) { sequence<26>(true); }
#endif

// reset at any point forgets everything
void reset_after(bool as_messages, int at)
{
    world w{ as_messages, u4("group", 0) };
    for (int k = 0; k < 8; ++k)
    {
        w.feed(u8("byte", 1 + k));
        if (k == at)
        {
            w.parser.reset();
            w.r.status = 0;
            w.r.sysex  = false;
        }
    }
}
VPE(reset_packets)
{
    reset_after(false, 0);
    reset_after(false, 1);
    reset_after(false, 3);
}
VPE(reset_messages)
{
    reset_after(true, 0);
    reset_after(true, 1);
    reset_after(true, 3);
}

// callbacks switched off and on between any bytes
VPE(toggled)
{
    world w{ false, 3 };
    for (int k = 0; k < 10; ++k)
    {
        const bool on = ubool("on", 1 + k);
        w.parser.enable_callbacks(on);
        vp_eq(w.parser.callbacks_enabled(), on, "callbacks_enabled tells what was set");
        const auto    b = u8("byte", 1 + k);
        const unsigned n = w.r.packets;
        w.r.feed(b);
        if (!on)
        {
            w.r.packets = n;
            w.r.emit    = false;
        }
        w.parser.feed(b);
        w.counts();
    }
}
// as whole messages: delivered if callbacks were on when the message started and when it ended
VPE(toggled_messages)
{
    world w{ true, 3 };
    bool  collecting = false;
    for (int k = 0; k < 9; ++k)
    {
        const bool on = ubool("on", 1 + k);
        w.parser.enable_callbacks(on);
        const auto     b = u8("byte", 1 + k);
        const unsigned n = w.r.packets, m = w.r.messages;
        if (b == 0xF0)
            collecting = on;
        w.r.feed(b);
        if (!on)
        {
            w.r.packets = n;
            w.r.emit    = false;
        }
        if (!on || !collecting)
        {
            w.r.messages = m;
            w.r.deliver  = false;
        }
        w.parser.feed(b);
        w.counts();
    }
}
VPE(disabled)
{
    unsigned calls = 0;
    const bool as_messages = ubool("messages", 0);
    midi1_byte_stream_parser p{ 0, [&](universal_packet) { ++calls; },
                                as_messages ? midi1_byte_stream_parser::sysex_callback([&](const sysex7&) { ++calls; }) : midi1_byte_stream_parser::sysex_callback{}, false };
    for (int k = 0; k < 10; ++k)
        p.feed(u8("byte", 1 + k));
    vp_eq(calls, 0, "no callback is invoked while callbacks are disabled");
}

// the group of a message is the parser's group
VPE(regrouped)
{
    world w{ false, u4("group", 0) };
    for (int k = 0; k < 3; ++k)
        w.feed(u8("byte", 1 + k));
    w.parser.reset();
    w.r.status = 0;
    w.r.sysex  = false;
    const uint8_t g = u4("group2", 0);
    w.parser.set_group(g);
    w.r.group = g;
    vp_eq(w.parser.group(), g, "set_group");
    for (int k = 0; k < 4; ++k)
        w.feed(u8("byte", 10 + k));
}

// a group set in the middle of a sysex message applies to the packets started afterwards
VPE(regrouped_sysex)
{
    const uint8_t g = u4("group", 0), h = u4("group2", 0);
    unsigned      n = 0;
    midi1_byte_stream_parser p{ g, [&](universal_packet x) {
                                   const unsigned format = n == 0 ? 1 : n == 3 ? 3 : 2, size = n == 3 ? 2 : 6;
                                   vp_eq(x.data[0] >> 16, 0x3000u | uint32_t(n < 2 ? g : h) << 8 | format << 4 | size, "sysex packets carry the group configured when they were started");
                                   ++n;
                               } };
    p.feed(0xF0);
    for (unsigned i = 0; i < 20; ++i)
    {
        if (i == 9)
            p.set_group(h);
        p.feed(u7("b", 1 + i));
    }
    p.feed(0xF7);
    vp_eq(n, 4, "a change of the group does not interrupt a sysex message");
}

// default construction: group 0
VPE(default_group)
{
    uint32_t w0 = 0;
    midi1_byte_stream_parser p{ [&](universal_packet x) { w0 = x.data[0]; } };
    vp_eq(p.group(), 0, "default group is 0");
    vp_eq(p.callbacks_enabled(), 1, "callbacks are enabled by default");
    const uint8_t d = u7("d");
    p.feed(0xC5);
    p.feed(d);
    vp_eq(w0, 0x20C50000u | uint32_t(d) << 8, "default group is 0");
}

// feeding a range is feeding its bytes one after the other
void range(unsigned size)
{
    uint8_t b[12];
    for (unsigned i = 0; i < size; ++i)
        b[i] = u8("byte", 1 + i);
    uint32_t  a0[12] = {}, a1[12] = {}, b0[12] = {}, b1[12] = {}, c0[12] = {}, c1[12] = {};
    unsigned  na = 0, nb = 0, nc = 0;
    midi1_byte_stream_parser p{ 5, [&](universal_packet x) { a0[na] = x.data[0]; a1[na++] = x.data[1]; } };
    midi1_byte_stream_parser q{ 5, [&](universal_packet x) { b0[nb] = x.data[0]; b1[nb++] = x.data[1]; } };
    midi1_byte_stream_parser r{ 5, [&](universal_packet x) { c0[nc] = x.data[0]; c1[nc++] = x.data[1]; } };
    for (unsigned i = 0; i < size; ++i)
        p.feed(b[i]);
    q.feed(b, size);
    r.feed(b, b + size);
    vp_eq(nb, na, "feed(pointer, size) posts what byte by byte feeding posts");
    vp_eq(nc, na, "feed(begin, end) posts what byte by byte feeding posts");
    for (unsigned i = 0; i < size; ++i)
    {
        vp_eq(b0[i], a0[i], "feed(pointer, size) posts what byte by byte feeding posts");
        vp_eq(b1[i], a1[i], "feed(pointer, size) posts what byte by byte feeding posts");
        vp_eq(c0[i], a0[i], "feed(begin, end) posts what byte by byte feeding posts");
        vp_eq(c1[i], a1[i], "feed(begin, end) posts what byte by byte feeding posts");
    }
}
VPE(ranges)
{
    range(0);
    range(1);
    range(4);
}

// long sysex messages, arbitrary content
void long_sysex(unsigned size, bool short_id)
{
    uint8_t  b[2200];
    unsigned messages = 0, packets = 0;
    for (unsigned i = 0; i < size; ++i)
        b[i] = u7("b", i);
    if (short_id)
        vp_assume(b[0] != 0);
    else
        b[0] = 0;
    const unsigned id = short_id ? 1 : 3;
    {
        midi1_byte_stream_parser p{ 2, [&](universal_packet) { ++packets; },
                                    [&](const sysex7& m) {
                                        ++messages;
                                        vp_eq(m.data.size(), size - id, "long sysex message: size");
                                        for (unsigned i = id; i < size; ++i)
                                            vp_eq(m.data[i - id], b[i], "long sysex message: data in order");
                                    } };
        p.feed(0xF0);
        p.feed(b, size);
        p.feed(0xF7);
        vp_eq(messages, 1, "long sysex message: delivered once");
        vp_eq(packets, 0, "sysex delivered as message is not posted as packets too");
    }
    {
        midi1_byte_stream_parser p{ 2, [&](universal_packet x) {
                                       const unsigned rest = size - 6 * packets, n = rest < 6 ? rest : 6;
                                       const unsigned format = packets == 0 ? 1 : 6 * packets + 6 > size ? 3 : 2;
                                       vp_eq(x.data[0] >> 16, 0x3200u | format << 4 | n, "long sysex as packets: start, continue..., end");
                                       for (unsigned i = 0; i < 6; ++i)
                                           vp_eq(uint8_t(x.data[(2 + i) / 4] >> (24 - 8 * ((2 + i) % 4))), i < n ? b[6 * packets + i] : 0, "long sysex as packets: bytes in order");
                                       ++packets;
                                   } };
        p.feed(0xF0);
        p.feed(b, size);
        p.feed(0xF7);
        vp_eq(packets, size / 6 + 1, "long sysex as packets: number of packets");
    }
}
VPE(long_40) { long_sysex(40, true); }
VPE(long_48) { long_sysex(48, false); }
VPE(long_1027) { long_sysex(1027, true); }
#if VP_THOROUGH
VPE(long_2100) { long_sysex(2100, false); }
#endif

// large sysex messages and long histories; bytes are taken in turn from a few arbitrary ones
namespace {
void large_message(unsigned size, bool one, unsigned times, unsigned chunk)
{
    const large              c{ true };
    unsigned                 messages = 0, clocks = 0;
    const unsigned           total = size + (one ? 1 : 3);
    midi1_byte_stream_parser p{ 9, [&](universal_packet x) { ++clocks; vp_eq(x.data[0], 0x19F80000, "only the clock is posted as a packet"); },
                                [&](const sysex7& m) {
                                    ++messages;
                                    vp_eq(m.manufacturerID, c.id(one), "large sysex message: manufacturer id");
                                    vp_eq(m.data.size(), size, "large sysex message: size");
                                    for (unsigned i = 0; i < size; ++i)
                                        vp_eq(m.data[i], c.at(i), "large sysex message: data in order");
                                } };
    for (unsigned k = 0; k < times; ++k)
    {
        unsigned beats = clocks;
        p.feed(0xF0);
        for (unsigned i = 0; i < total; ++i)
        {
            p.feed(c.raw7(one, i));
            if (chunk && i % chunk == 0)
            {
                p.feed(0xF8);
                ++beats;
            }
        }
        vp_eq(messages, k, "a sysex message is not delivered before its end");
        p.feed(0xF7);
        vp_eq(messages, k + 1, "every sysex message is delivered once");
        vp_eq(clocks, beats, "every real time byte is posted");
    }
}
void large_packets(unsigned total, unsigned times, unsigned chunk)
{
    const large              c{ true };
    unsigned                 n = 0, clocks = 0, at = 0, start = 0;
    midi1_byte_stream_parser p{ c.group, [&](universal_packet x) {
                                   if ((x.data[0] >> 28) == 1)
                                   {
                                       ++clocks;
                                       return;
                                   }
                                   const unsigned left = total - at, b = left < 6 ? left : 6;
                                   const unsigned f = left < 6 ? (at ? 3 : 0) : at ? 2 : 1;
                                   uint8_t        d[6] = {};
                                   for (unsigned i = 0; i < b; ++i)
                                       d[i] = c.raw7(true, at + i);
                                   words(x, 0x30000000u | uint32_t(c.group) << 24 | f << 20 | b << 16 | uint32_t(d[0]) << 8 | d[1],
                                         uint32_t(d[2]) << 24 | uint32_t(d[3]) << 16 | uint32_t(d[4]) << 8 | d[5], 0, 0, "large sysex as packets: every packet carries the next bytes");
                                   at += b;
                                   ++n;
                               } };
    for (unsigned k = 0; k < times; ++k)
    {
        unsigned beats = clocks;
        at = 0, n = 0;
        p.feed(0xF0);
        for (unsigned i = 0; i < total; ++i)
        {
            p.feed(c.raw7(true, i));
            if (chunk && i % chunk == 0)
            {
                p.feed(0xFE);
                ++beats;
            }
        }
        p.feed(0xF7);
        vp_eq(n, total / 6 + 1, "large sysex as packets: number of packets");
        vp_eq(at, total, "large sysex as packets: all bytes are sent");
        vp_eq(clocks, beats, "every real time byte is posted");
    }
}
// many channel voice messages in running status, with real time bytes in between
void running(uint8_t status, unsigned data, unsigned count, bool repeat)
{
    const large              c{ true };
    unsigned                 n = 0, clocks = 0, i = 0;
    uint32_t                 expected = 0;
    midi1_byte_stream_parser p{ c.group, [&](universal_packet x) {
                                   if ((x.data[0] >> 28) == 1)
                                   {
                                       ++clocks;
                                       return;
                                   }
                                   words(x, expected, 0, 0, 0, "running status: every message is posted with its own data");
                                   ++n;
                               } };
    p.feed(status);
    for (unsigned k = 0; k < count; ++k)
    {
        if (repeat && k % 3 == 1)
            p.feed(status);
        expected = 0x20000000u | uint32_t(c.group) << 24 | uint32_t(status) << 16 | uint32_t(c.at(i)) << 8 | (data == 2 ? c.at(i + 1) : 0);
        p.feed(c.at(i++));
        if (data == 2)
        {
            p.feed(0xFA);
            p.feed(c.at(i++));
        }
        vp_eq(n, k + 1, "running status: every message is posted when its last byte arrives");
    }
    vp_eq(clocks, data == 2 ? count : 0, "every real time byte is posted");
}
} // namespace
VPE(large_message_300) { for (unsigned n = 290; n < 306; ++n) large_message(n, n & 1, 1, 0); }
VPE(large_message_1024) { for (unsigned n = 1021; n < 1026; ++n) large_message(n, n & 1, 1, 7); }
VPE(large_message_4096) { for (unsigned n = 4094; n < 4098; ++n) large_message(n, n & 1, 1, 0); }
VPE(large_message_20000) { large_message(20000, true, 2, 0); }
VPE(large_message_70000) { large_message(70000, false, 1, 100); }
VPE(large_message_many) { large_message(5, true, 300, 2); }
VPE(large_packets_300) { for (unsigned n = 290; n < 306; ++n) large_packets(n, 2, 5); }
VPE(large_packets_1536) { for (unsigned n = 1530; n < 1543; ++n) large_packets(n, 1, 0); }
VPE(large_packets_4096) { for (unsigned n = 4093; n < 4099; ++n) large_packets(n, 1, 0); }
VPE(large_packets_70000) { large_packets(70000, 1, 100); }
VPE(large_packets_many) { large_packets(7, 300, 3); large_packets(4, 300, 0); large_packets(6, 300, 0); }
VPE(running_notes) { running(0x93, 2, 700, false); }
VPE(running_bend) { running(0xEF, 2, 300, true); }
VPE(running_program) { running(0xC0, 1, 700, false); }
VPE(running_pressure) { running(0xD7, 1, 300, true); }
// the number of bytes of one call does not matter
VPE(large_feed)
{
    const large c{ true };
    for (unsigned size : { 250u, 260u, 65530u, 66000u })
    {
        unsigned                 calls = 0;
        midi1_byte_stream_parser p{ [](universal_packet) { vp_check(false, "no packet is posted for a sysex delivered as message"); },
                                    [&](const sysex7& m) {
                                        ++calls;
                                        vp_eq(m.data.size(), size, "large feed: size");
                                        for (unsigned i = 0; i < size; ++i)
                                            vp_eq(m.data[i], c.at(i), "large feed: data in order");
                                    } };
        std::vector<uint8_t> b(size + 3);
        b[0] = 0xF0;
        b[1] = c.id1;
        for (unsigned i = 0; i < size; ++i)
            b[2 + i] = c.at(i);
        b[size + 2] = 0xF7;
        p.feed(b.data(), b.size());
        vp_eq(calls, 1, "all bytes of one call are parsed");
        p.feed(b.data(), b.data() + b.size());
        vp_eq(calls, 2, "all bytes of one range are parsed");
        p.feed(b.data(), size_t(0));
        p.feed(b.data(), b.data());
        p.feed(0xF7);
        vp_eq(calls, 2, "no bytes are parsed when there are none");
    }
}
