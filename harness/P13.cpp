// P13: sysex7 reassembly over arbitrary packet sequences
#include "packet.h"
#include <midi/sysex_collector.h>
#include "large.h"
using namespace midi;

namespace {

// reference: what a collector has to deliver, written from the UMP specification
struct reference
{
    bool     open = false;
    unsigned raw  = 0; // payload bytes of the message so far
    uint8_t  bytes[64];
    unsigned limit = 0;
    unsigned delivered = 0;
    bool     complete  = false; // this packet completes a message

    void feed(const universal_packet& p)
    {
        complete          = false;
        const uint32_t w0 = p.data[0], w1 = p.data[1];
        const unsigned type = w0 >> 28, format = (w0 >> 20) & 0xF, n = (w0 >> 16) & 0xF;
        if (type != 3 || format > 3 || n > 6)
            return;
        if (format <= 1)
        {
            raw  = 0;
            open = true;
        }
        else if (!open)
            return;
        const uint8_t b[6] = { uint8_t(w0 >> 8), uint8_t(w0), uint8_t(w1 >> 24), uint8_t(w1 >> 16), uint8_t(w1 >> 8), uint8_t(w1) };
        for (unsigned i = 0; i < 6; ++i)
            if (i < n)
                bytes[raw + i] = b[i];
        raw += n;
        if (limit)
        {
            const unsigned id = (raw > 0 && bytes[0] != 0) ? 1 : 3;
            if (raw > id + limit)
            {
                open = false;
                return;
            }
        }
        if (format == 0 || format == 3)
        {
            complete = true;
            open     = false;
            ++delivered;
        }
    }
};

void compare(const sysex7& m, const reference& r)
{
    if (r.raw > 0 && r.bytes[0] != 0)
    {
        vp_eq(m.manufacturerID, uint32_t(r.bytes[0]) << 16, "one byte manufacturer id");
        vp_eq(m.data.size(), r.raw - 1, "number of data bytes after a one byte id");
        for (unsigned i = 0; i < 30; ++i)
            if (i + 1 < r.raw)
                vp_eq(m.data[i], r.bytes[i + 1], "data bytes in order after a one byte id");
    }
    else if (r.raw >= 3)
    {
        vp_eq(m.manufacturerID, (uint32_t(r.bytes[1]) << 8) | r.bytes[2], "three byte manufacturer id");
        vp_eq(m.data.size(), r.raw - 3, "number of data bytes after a three byte id");
        for (unsigned i = 0; i < 30; ++i)
            if (i + 3 < r.raw)
                vp_eq(m.data[i], r.bytes[i + 3], "data bytes in order after a three byte id");
    }
    else
    {
        vp_eq(m.data.size(), 0, "no data without a manufacturer id");
        vp_eq(m.manufacturerID, r.raw == 2 ? uint32_t(r.bytes[1]) << 8 : 0, "no manufacturer id of an earlier message");
    }
}


// an arbitrary packet; only a sysex7 packet's two words can matter
universal_packet step_packet(int k)
{
    universal_packet p;
    p.data[0] = (uint32_t(vp_sym("head", 16, 2 * k)) << 16) | uint32_t(vp_sym("d", 16, 2 * k + 1));
    p.data[1] = u32("w", 2 * k + 1);
    p.data[2] = u32("x", 60);
    p.data[3] = u32("x", 60);
    return p;
}

template<int K>
void sequence(unsigned limit = 0)
{
    reference r;
    unsigned  calls = 0;
    r.limit         = limit;
    sysex7_collector c{ [&](const sysex7& m) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, r);
    } };
    if (limit)
        c.set_max_sysex_data_size(limit);
    for (int k = 0; k < K; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, limit ? "with a limit, exactly the messages within the limit are delivered, once" : "every completed message is delivered exactly once");
    }
}

// one message of a given total length, arbitrary content, in full packets, followed by a short one
void long_message(unsigned raw)
{
    reference r;
    unsigned  calls = 0;
    uint8_t   b[800];
    for (unsigned i = 0; i < raw; ++i)
        b[i] = u7("b", i);
    vp_assume(b[0] != 0);
    sysex7_collector c{ [&](const sysex7& m) {
        ++calls;
        if (calls == 1)
        {
            vp_eq(m.manufacturerID, uint32_t(b[0]) << 16, "id of a long message");
            vp_eq(m.data.size(), raw - 1, "size of a long message");
            for (unsigned i = 1; i < raw; ++i)
                vp_eq(m.data[i - 1], b[i], "data of a long message");
        }
        else
        {
            vp_eq(m.manufacturerID, 0x410000, "id of the message after a long one");
            vp_eq(m.data.size(), 1, "size of the message after a long one");
            vp_eq(m.data[0], 0x12, "data of the message after a long one");
        }
    } };
    for (unsigned i = 0; i < raw; i += 6)
    {
        uint8_t        d[6] = {};
        const unsigned n    = raw - i < 6 ? raw - i : 6;
        for (unsigned j = 0; j < n; ++j)
            d[j] = b[i + j];
        const unsigned f = i == 0 ? 1 : i + 6 >= raw ? 3 : 2;
        c.feed(universal_packet{ 0x30000000u | f << 20 | n << 16 | uint32_t(d[0]) << 8 | d[1], uint32_t(d[2]) << 24 | uint32_t(d[3]) << 16 | uint32_t(d[4]) << 8 | d[5] });
    }
    vp_eq(calls, 1, "a long message is delivered once");
    c.feed(universal_packet{ 0x30024112, 0 });
    vp_eq(calls, 2, "the message after a long one is delivered");
}
} // namespace

VPE(sequence_2) { sequence<2>(); }
VPE(sequence_4) { sequence<4>(); }
VPE(sequence_5) { sequence<5>(); }
VPE(limit_1) { sequence<3>(1); }
VPE(limit_3) { sequence<3>(3); }
VPE(limit_5) { sequence<4>(5); }
VPE(limit_6) { sequence<4>(6); }
VPE(limit_8) { sequence<4>(8); }
VPE(limit_11) { sequence<4>(11); }
VPE(long_100) { long_message(100); }
VPE(long_135) { long_message(135); }
VPE(long_300) { long_message(300); }
#if VP_THOROUGH
VPE(sequence_7) { sequence<7>(); }
VPE(limit_10) { sequence<6>(10); }
VPE(long_700) { long_message(700); }
#endif

VPE(reset)
{
    reference r;
    unsigned  calls = 0;
    sysex7_collector c{ [&](const sysex7& m) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, r);
    } };
    for (int k = 0; k < 3; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        if (k == 1)
        {
            c.reset();
            r.open = false;
        }
        vp_eq(calls, r.delivered, "after reset only whole new messages are delivered");
    }
}

VPE(lowered_limit)
{
    // a message collected without limit, then a limit, then anything
    reference r;
    unsigned  calls = 0;
    sysex7_collector c{ [&](const sysex7& m) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, r);
    } };
    const universal_packet first{ 0x30057D11, 0x22334400 };
    r.feed(first);
    c.feed(first);
    r.limit = 2;
    c.set_max_sysex_data_size(2);
    for (int k = 0; k < 2; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, "a limit set later applies to later messages");
    }
}

// limits set one after the other, each with arbitrary packets: the last one counts, 0 lifts it
template<int N>
static void limits(const unsigned (&l)[N])
{
    reference r;
    unsigned  calls = 0;
    sysex7_collector c{ [&](const sysex7& m) {
        ++calls;
        vp_check(r.complete, "delivered only when a packet completes a message");
        compare(m, r);
    } };
    for (int i = 0; i < N; ++i)
    {
        c.reset();
        r.open  = false;
        r.limit = l[i];
        c.set_max_sysex_data_size(l[i]);
        if (i + 1 < N)
        {
            const universal_packet first{ 0x30057D11, 0x22334400 };
            r.feed(first);
            c.feed(first);
            vp_eq(calls, r.delivered, "the limit set last applies, 0 lifts it");
        }
    }
    for (int k = 0; k < 2; ++k)
    {
        const auto p = step_packet(k);
        r.feed(p);
        c.feed(p);
        vp_eq(calls, r.delivered, "the limit set last applies, 0 lifts it");
    }
}
VPE(limits_2_0) { limits({ 2, 0 }); }
VPE(limits_2_8) { limits({ 2, 8 }); }
VPE(limits_8_2) { limits({ 8, 2 }); }
VPE(limits_0_8_0) { limits({ 0, 8, 0 }); }

VPE(callback)
{
    unsigned a = 0, b = 0;
    sysex7_collector c{ sysex7_collector::callback{} };
    const auto p = step_packet(0);
    c.feed(p); // no callback: nothing to call
    c.reset();
    c.set_callback([&](const sysex7&) { ++a; });
    c.feed(universal_packet{ 0x30024112, 0 });
    vp_eq(a, 1, "installed callback is used");
    c.set_callback([&](const sysex7&) { ++b; });
    c.feed(universal_packet{ 0x30024112, 0 });
    vp_eq(a, 1, "a replaced callback is not called any more");
    vp_eq(b, 1, "the replacement is called");
}

// large messages and limits, long histories
namespace {
struct watch7
{
    const large&     c;
    bool             one;
    unsigned         size = 0, calls = 0;
    sysex7_collector k{ [this](const sysex7& m) { arrived(m); } };

    void arrived(const sysex7& m)
    {
        ++calls;
        vp_eq(m.manufacturerID, c.id(one), "large: manufacturer id");
        vp_eq(m.data.size(), size, "large: number of data bytes");
        for (unsigned i = 0; i < size; ++i)
            vp_eq(m.data[i], c.at(i), "large: data bytes in order");
    }
    // the packets of a message of n data bytes; stops before the end if cut
    void feed(unsigned n, bool cut = false, unsigned foreign = 0)
    {
        size                 = n;
        const unsigned total = n + (one ? 1 : 3);
        for (unsigned i = 0, count = 0; i < total; i += 6)
        {
            uint8_t        d[6] = {};
            const unsigned b    = total - i < 6 ? total - i : 6;
            for (unsigned j = 0; j < b; ++j)
                d[j] = c.raw7(one, i + j);
            const unsigned f = total <= 6 ? 0 : i == 0 ? 1 : i + 6 >= total ? 3 : 2;
            if (cut && (f == 0 || f == 3))
                return;
            k.feed(universal_packet{ 0x30000000u | f << 20 | b << 16 | uint32_t(d[0]) << 8 | d[1], uint32_t(d[2]) << 24 | uint32_t(d[3]) << 16 | uint32_t(d[4]) << 8 | d[5] });
            if (foreign && ++count % foreign == 0)
            {
                k.feed(universal_packet{ 0x10F80000 });
                k.feed(universal_packet{ 0x40903C00, 0x12340000 });
                k.feed(universal_packet{ 0x50141122, 1, 2, 3 });
            }
        }
    }
};
void limit7(unsigned limit, bool one, bool far = true)
{
    const large c{ true };
    watch7      w{ c, one };
    w.k.set_max_sysex_data_size(limit);
    vp_max_alloc(limit);
    w.feed(limit);
    vp_eq(w.calls, 1, "a message of exactly the limit is delivered");
    w.feed(limit + 1);
    vp_eq(w.calls, 1, "a message of one byte more than the limit is not delivered");
    if (far)
        w.feed(3 * limit + 7);
    vp_eq(w.calls, 1, "a message far above the limit is not delivered");
    w.feed(limit - 1);
    vp_eq(w.calls, 2, "a message below the limit is delivered after one above it");
    w.feed(limit, true);
    w.feed(limit);
    vp_eq(w.calls, 3, "an unfinished message does not count for the limit of the next one");
    vp_max_alloc(0);
}
} // namespace
VPE(large_limit_100) { limit7(100, true); }
VPE(large_limit_127) { limit7(127, false); }
VPE(large_limit_128) { limit7(128, true); }
VPE(large_limit_129) { limit7(129, false); }
VPE(large_limit_255) { limit7(255, true); }
VPE(large_limit_256) { limit7(256, true); }
VPE(large_limit_257) { limit7(257, false); }
VPE(large_limit_1000) { limit7(1000, true); }
VPE(large_limit_4096) { limit7(4096, false); }
VPE(large_limit_16384) { limit7(16384, true); }
VPE(large_limit_20000) { limit7(20000, true); }
VPE(large_limit_66000) { limit7(66000, true, false); }
VPE(large_70000)
{
    const large c{ true };
    watch7      w{ c, true };
    w.feed(70000, false, 50);
    vp_eq(w.calls, 1, "a large message is delivered once, also with other packets in between");
    w.feed(3);
    vp_eq(w.calls, 2, "a message after a large one is delivered");
}
VPE(history_many)
{
    const large c{ true };
    watch7      w{ c, false };
    for (unsigned i = 0; i < 300; ++i)
    {
        w.feed(i % 20, false, 1);
        vp_eq(w.calls, i + 1, "every one of many messages is delivered");
    }
}
VPE(history_aborted)
{
    const large c{ true };
    watch7      w{ c, true };
    for (unsigned i = 0; i < 300; ++i)
        w.feed(6 + i % 20, true);
    vp_eq(w.calls, 0, "unfinished messages are never delivered");
    w.feed(9);
    vp_eq(w.calls, 1, "a message after many unfinished ones is delivered");
}
VPE(history_stray)
{
    const large c{ true };
    watch7      w{ c, true };
    for (unsigned i = 0; i < 300; ++i)
        w.k.feed(universal_packet{ i % 3 ? 0x30264142 : 0x30334142, 0x43444546 });
    vp_eq(w.calls, 0, "continue and end packets without a start deliver nothing");
    w.feed(30);
    vp_eq(w.calls, 1, "a message after many stray packets is delivered");
}
VPE(history_reset)
{
    const large c{ true };
    watch7      w{ c, true };
    for (unsigned i = 0; i < 40; ++i)
    {
        w.feed(200, true);
        w.k.reset();
        w.k.feed(universal_packet{ 0x30334142, 0x43000000 });
        vp_eq(w.calls, i, "after a reset the rest of the message is not delivered");
        w.feed(20);
        vp_eq(w.calls, i + 1, "after a reset a new message is delivered");
    }
}
// messages that complete while there is no callback leave nothing behind
VPE(no_callback)
{
    const large c{ true };
    for (unsigned n : { 0u, 3u, 5u, 30u })
        for (unsigned one = 0; one < 2; ++one)
            for (unsigned times = 1; times < 3; ++times)
            {
                watch7 w{ c, one == 1 };
                w.k.set_callback({});
                for (unsigned i = 0; i < times; ++i)
                    w.feed(n);
                w.k.set_callback([&w](const sysex7& m) { w.arrived(m); });
                w.k.feed(universal_packet{ 0x30334142, 0x43000000 });
                vp_eq(w.calls, 0, "a message completed without callback is not delivered later");
                w.feed(2);
                vp_eq(w.calls, 1, "a message after one without callback is delivered");
                w.feed(20);
                vp_eq(w.calls, 2, "a message after one without callback is delivered");
            }
}
