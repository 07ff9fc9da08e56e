// P14: sysex8 reassembly over arbitrary packet sequences
#include "packet.h"
#include <midi/sysex_collector.h>
#include "large.h"
using namespace midi;

namespace {

// reference: what a collector has to deliver, written from the UMP specification
struct reference
{
    bool     open   = false;
    uint8_t  stream = 0;
    unsigned raw  = 0; // payload bytes of the message so far
    uint8_t  bytes[100];
    unsigned limit = 0;
    unsigned delivered = 0;
    bool     complete  = false; // this packet completes a message

    void feed(const universal_packet& p)
    {
        complete            = false;
        const uint32_t w0   = p.data[0];
        const unsigned type = w0 >> 28, format = (w0 >> 20) & 0xF, n = (w0 >> 16) & 0xF;
        const uint8_t  id   = uint8_t(w0 >> 8);
        if (type != 5 || format > 3 || n == 0 || n > 14)
            return;
        if (format <= 1)
        {
            raw    = 0;
            open   = true;
            stream = id;
        }
        else if (!open || id != stream)
            return;
        for (unsigned i = 0; i < 13; ++i)
            if (i + 1 < n)
                bytes[raw + i] = uint8_t(p.data[(3 + i) / 4] >> (24 - 8 * ((3 + i) % 4)));
        raw += n - 1;
        if (limit && raw > 2 + limit)
        {
            open = false;
            return;
        }
        if (format == 0 || format == 3)
        {
            complete = true;
            open     = false;
            ++delivered;
        }
    }
};

void compare(const sysex8& m, uint8_t stream, const reference& r)
{
    vp_eq(stream, r.stream, "delivered with its stream id");
    if (r.raw >= 2)
    {
        const uint8_t a = r.bytes[0], b = r.bytes[1];
        if (a & 0x80)
            vp_eq(m.manufacturerID, (uint32_t(a & 0x7F) << 8) | (b & 0x7Fu), "three byte manufacturer id");
        else if (a == 0)
            vp_eq(m.manufacturerID, uint32_t(b & 0x7F) << 16, "one byte manufacturer id");
        else
            vp_eq(m.manufacturerID, 0, "no manufacturer id of an earlier message");
        vp_eq(m.data.size(), r.raw - 2, "number of data bytes");
        for (unsigned i = 0; i < 40; ++i)
            if (i + 2 < r.raw)
                vp_eq(m.data[i], r.bytes[i + 2], "data bytes in order");
    }
    else
    {
        vp_eq(m.data.size(), 0, "no data without a manufacturer id");
        vp_eq(m.manufacturerID, r.raw == 1 && (r.bytes[0] & 0x80) ? uint32_t(r.bytes[0] & 0x7F) << 8 : 0, "no manufacturer id of an earlier message");
    }
}

// an arbitrary packet (all four words), with one of two stream ids
universal_packet step_packet(int k)
{
    universal_packet p;
    const uint32_t   stream = vp_sym("stream", 1, 2 * k) ? 0xA1 : 0x21;
    p.data[0] = (uint32_t(vp_sym("head", 16, 2 * k)) << 16) | (stream << 8) | uint32_t(vp_sym("d", 8, 2 * k + 1));
    p.data[1] = u32("w", 2 * k + 1);
    p.data[2] = u32("w", 2 * k + 1);
    p.data[3] = u32("w", 2 * k + 1);
    return p;
}
// a packet of any format with any stream id and few bytes
universal_packet stream_packet(int k)
{
    universal_packet p;
    p.data[0] = 0x50040000u | (uint32_t(vp_sym("format", 2, 3 * k)) << 20) | (uint32_t(vp_sym("stream", 8, 40)) << 8) | uint32_t(vp_sym("d", 8, 3 * k + 1));
    p.data[1] = uint32_t(vp_sym("w", 16, 3 * k + 1)) << 16;
    p.data[2] = p.data[3] = 0;
    return p;
}

template<int K>
void sequence(unsigned limit = 0, universal_packet (*packet)(int) = step_packet)
{
    reference r;
    unsigned  calls = 0;
    r.limit         = limit;
    sysex8_collector c{ [&](const sysex8& m, uint8_t stream) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, stream, r);
    } };
    if (limit)
        c.set_max_sysex_data_size(limit);
    for (int k = 0; k < K; ++k)
    {
        const auto p = packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, limit ? "with a limit, exactly the messages within the limit are delivered, once" : "every completed message is delivered exactly once");
    }
}

// one message of a given total length, arbitrary content, in full packets, followed by a short one
void long_message(unsigned raw)
{
    unsigned calls = 0;
    uint8_t  b[800];
    for (unsigned i = 0; i < raw; ++i)
        b[i] = u8("b", i);
    vp_assume(b[0] == 0);
    const uint8_t id = u8("stream", 0);
    sysex8_collector c{ [&](const sysex8& m, uint8_t stream) {
        ++calls;
        if (calls == 1)
        {
            vp_eq(stream, id, "stream id of a long message");
            vp_eq(m.manufacturerID, uint32_t(b[1] & 0x7F) << 16, "id of a long message");
            vp_eq(m.data.size(), raw - 2, "size of a long message");
            for (unsigned i = 2; i < raw; ++i)
                vp_eq(m.data[i - 2], b[i], "data of a long message");
        }
        else
        {
            vp_eq(stream, 0x33, "stream id of the message after a long one");
            vp_eq(m.manufacturerID, 0x410000, "id of the message after a long one");
            vp_eq(m.data.size(), 1, "size of the message after a long one");
            vp_eq(m.data[0], 0x92, "data of the message after a long one");
        }
    } };
    for (unsigned i = 0; i < raw; i += 13)
    {
        universal_packet p;
        const unsigned   n = raw - i < 13 ? raw - i : 13, f = i == 0 ? 1 : i + 13 >= raw ? 3 : 2;
        p.data[0] = 0x50000000u | f << 20 | (n + 1) << 16 | uint32_t(id) << 8;
        p.data[1] = p.data[2] = p.data[3] = 0;
        for (unsigned j = 0; j < n; ++j)
            p.data[(3 + j) / 4] |= uint32_t(b[i + j]) << (24 - 8 * ((3 + j) % 4));
        c.feed(p);
        if (f != 3)
            vp_eq(c.stream_id(), id, "stream id of the message in progress");
    }
    vp_eq(calls, 1, "a long message is delivered once");
    c.feed(universal_packet{ 0x50043300, 0x41920000 });
    vp_eq(calls, 2, "the message after a long one is delivered");
}
} // namespace

VPE(streams_4) { sequence<4>(0, stream_packet); }
VPE(sequence_2) { sequence<2>(); }
VPE(sequence_4) { sequence<4>(); }
VPE(sequence_3) { sequence<3>(); }
VPE(limit_1) { sequence<3>(1); }
VPE(limit_3) { sequence<3>(3); }
VPE(limit_5) { sequence<4>(5); }
VPE(limit_6) { sequence<4>(6); }
VPE(limit_8) { sequence<4>(8); }
VPE(limit_11) { sequence<4>(11); }
VPE(long_100) { long_message(100); }
VPE(long_135) { long_message(135); }
VPE(long_300) { long_message(300); }
#if VP_THOROUGH
VPE(sequence_5) { sequence<5>(); }
VPE(streams_5) { sequence<5>(0, stream_packet); }
VPE(long_700) { long_message(700); }
#endif

VPE(reset)
{
    reference r;
    unsigned  calls = 0;
    sysex8_collector c{ [&](const sysex8& m, uint8_t stream) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, stream, r);
    } };
    for (int k = 0; k < 3; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        if (k == 1)
        {
            c.reset();
            r.open = false;
        }
        vp_eq(calls, r.delivered, "after reset only whole new messages are delivered");
    }
}

VPE(lowered_limit)
{
    // a message collected without limit, then a limit, then anything
    reference r;
    unsigned  calls = 0;
    sysex8_collector c{ [&](const sysex8& m, uint8_t stream) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, stream, r);
    } };
    const universal_packet first{ 0x50071100, 0x7D223344 };
    r.feed(first);
    c.feed(first);
    r.limit = 2;
    c.set_max_sysex_data_size(2);
    for (int k = 0; k < 2; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, "a limit set later applies to later messages");
    }
}

// limits set one after the other, each with arbitrary packets: the last one counts, 0 lifts it
template<int N>
static void limits(const unsigned (&l)[N])
{
    reference r;
    unsigned  calls = 0;
    sysex8_collector c{ [&](const sysex8& m, uint8_t stream) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, stream, r);
    } };
    for (int i = 0; i < N; ++i)
    {
        c.reset();
        r.open  = false;
        r.limit = l[i];
        c.set_max_sysex_data_size(l[i]);
        if (i + 1 < N)
        {
            const universal_packet first{ 0x50071100, 0x7D223344 };
            r.feed(first);
            c.feed(first);
            vp_eq(calls, r.delivered, "the limit set last applies, 0 lifts it");
        }
    }
    for (int k = 0; k < 2; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, "the limit set last applies, 0 lifts it");
    }
}
VPE(limits_2_0) { limits({ 2, 0 }); }
VPE(limits_2_8) { limits({ 2, 8 }); }
VPE(limits_8_2) { limits({ 8, 2 }); }
VPE(limits_0_8_0) { limits({ 0, 8, 0 }); }

VPE(callback)
{
    unsigned a = 0, b = 0;
    sysex8_collector c{ sysex8_collector::callback{} };
    const auto p = step_packet(0);
    c.feed(p); // no callback: nothing to call
    c.reset();
    c.set_callback([&](const sysex8&, uint8_t) { ++a; });
    c.feed(universal_packet{ 0x50043300, 0x41920000 });
    vp_eq(a, 1, "installed callback is used");
    c.set_callback([&](const sysex8&, uint8_t) { ++b; });
    c.feed(universal_packet{ 0x50043300, 0x41920000 });
    vp_eq(a, 1, "a replaced callback is not called any more");
    vp_eq(b, 1, "the replacement is called");
}

// large messages and limits, long histories
namespace {
struct watch8
{
    const large&     c;
    bool             one;
    unsigned         size = 0, calls = 0;
    sysex8_collector k{ [this](const sysex8& m, uint8_t s) { arrived(m, s); } };

    void arrived(const sysex8& m, uint8_t s)
    {
        vp_eq(s, c.stream, "large: stream id");
        ++calls;
        vp_eq(m.manufacturerID, c.id(one), "large: manufacturer id");
        vp_eq(m.data.size(), size, "large: number of data bytes");
        for (unsigned i = 0; i < size; ++i)
            vp_eq(m.data[i], c.at(i), "large: data bytes in order");
    }
    // the packets of a message of n data bytes; stops before the end if cut
    void feed(unsigned n, bool cut = false, unsigned foreign = 0)
    {
        size                 = n;
        const unsigned total = n + 2;
        for (unsigned i = 0, count = 0; i < total; i += 13)
        {
            const unsigned b = total - i < 13 ? total - i : 13;
            const unsigned f = total <= 13 ? 0 : i == 0 ? 1 : i + 13 >= total ? 3 : 2;
            uint8_t        d[16] = { 0x50, uint8_t(f << 4 | (b + 1)), c.stream };
            for (unsigned j = 0; j < b; ++j)
                d[3 + j] = c.raw8(one, i + j);
            if (cut && (f == 0 || f == 3))
                return;
            universal_packet p;
            for (unsigned j = 0; j < 4; ++j)
                p.data[j] = uint32_t(d[4 * j]) << 24 | uint32_t(d[4 * j + 1]) << 16 | uint32_t(d[4 * j + 2]) << 8 | d[4 * j + 3];
            k.feed(p);
            if (foreign && ++count % foreign == 0)
            {
                k.feed(universal_packet{ 0x10F80000 });
                k.feed(universal_packet{ 0x40903C00, 0x12340000 });
                k.feed(universal_packet{ 0x30141122, 1 });
            }
        }
    }
};
void limit8(unsigned limit, bool one, bool far = true)
{
    const large c{ false };
    watch8      w{ c, one };
    w.k.set_max_sysex_data_size(limit);
    vp_max_alloc(limit);
    w.feed(limit);
    vp_eq(w.calls, 1, "a message of exactly the limit is delivered");
    w.feed(limit + 1);
    vp_eq(w.calls, 1, "a message of one byte more than the limit is not delivered");
    if (far)
        w.feed(3 * limit + 7);
    vp_eq(w.calls, 1, "a message far above the limit is not delivered");
    w.feed(limit - 1);
    vp_eq(w.calls, 2, "a message below the limit is delivered after one above it");
    w.feed(limit, true);
    w.feed(limit);
    vp_eq(w.calls, 3, "an unfinished message does not count for the limit of the next one");
    vp_max_alloc(0);
}
} // namespace
VPE(large_limit_100) { limit8(100, true); }
VPE(large_limit_127) { limit8(127, false); }
VPE(large_limit_128) { limit8(128, true); }
VPE(large_limit_129) { limit8(129, false); }
VPE(large_limit_255) { limit8(255, true); }
VPE(large_limit_256) { limit8(256, true); }
VPE(large_limit_257) { limit8(257, false); }
VPE(large_limit_1000) { limit8(1000, true); }
VPE(large_limit_4096) { limit8(4096, false); }
VPE(large_limit_20000) { limit8(20000, false); }
VPE(large_limit_16384) { limit8(16384, true); }
VPE(large_limit_66000) { limit8(66000, true, false); }
VPE(large_70000)
{
    const large c{ false };
    watch8      w{ c, true };
    w.feed(70000, false, 50);
    vp_eq(w.calls, 1, "a large message is delivered once, also with other packets in between");
    w.feed(3);
    vp_eq(w.calls, 2, "a message after a large one is delivered");
}
VPE(history_many)
{
    const large c{ false };
    watch8      w{ c, false };
    for (unsigned i = 0; i < 300; ++i)
    {
        w.feed(i % 20, false, 1);
        vp_eq(w.calls, i + 1, "every one of many messages is delivered");
    }
}
VPE(history_aborted)
{
    const large c{ false };
    watch8      w{ c, true };
    for (unsigned i = 0; i < 300; ++i)
        w.feed(12 + i % 20, true);
    vp_eq(w.calls, 0, "unfinished messages are never delivered");
    w.feed(9);
    vp_eq(w.calls, 1, "a message after many unfinished ones is delivered");
}
VPE(history_stray)
{
    const large c{ false };
    watch8      w{ c, true };
    for (unsigned i = 0; i < 300; ++i)
        w.k.feed(universal_packet{ i % 3 ? 0x502E0042 : 0x50334142, 0x43444546, 7, 8 });
    vp_eq(w.calls, 0, "continue and end packets without a start deliver nothing");
    w.feed(30);
    vp_eq(w.calls, 1, "a message after many stray packets is delivered");
}
VPE(history_reset)
{
    const large c{ false };
    watch8      w{ c, true };
    for (unsigned i = 0; i < 40; ++i)
    {
        w.feed(200, true);
        w.k.reset();
        w.k.feed(universal_packet{ 0x50330042 | uint32_t(c.stream) << 8, 0x43000000, 0, 0 });
        vp_eq(w.calls, i, "after a reset the rest of the message is not delivered");
        w.feed(20);
        vp_eq(w.calls, i + 1, "after a reset a new message is delivered");
    }
}
// messages that complete while there is no callback leave nothing behind
VPE(no_callback)
{
    const large c{ false };
    for (unsigned n : { 0u, 3u, 11u, 40u })
        for (unsigned one = 0; one < 2; ++one)
            for (unsigned times = 1; times < 3; ++times)
            {
                watch8 w{ c, one == 1 };
                w.k.set_callback({});
                for (unsigned i = 0; i < times; ++i)
                    w.feed(n);
                w.k.set_callback([&w](const sysex8& m, uint8_t s) { w.arrived(m, s); });
                w.k.feed(universal_packet{ 0x50340000u | uint32_t(c.stream) << 8 | 1, 0x43444500 });
                vp_eq(w.calls, 0, "a message completed without callback is not delivered later");
                w.feed(2);
                vp_eq(w.calls, 1, "a message after one without callback is delivered");
                w.feed(30);
                vp_eq(w.calls, 2, "a message after one without callback is delivered");
            }
}
