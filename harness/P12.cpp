// P12: segmentation of sysex messages into packets
#include "packet.h"
#include <midi/sysex.h>
#include <midi/universal_sysex.h>
#include "large.h"
using namespace midi;

namespace {

struct sink
{
    universal_packet p[160];
    unsigned         n = 0;
    template<typename P>
    void operator()(const P& x)
    {
        p[n] = x;
        ++n;
    }
};
uint8_t payload7(const universal_packet& p, unsigned i)
{
    return uint8_t(p.data[(2 + i) / 4] >> (24 - 8 * ((2 + i) % 4)));
}
uint8_t payload8(const universal_packet& p, unsigned i)
{
    return uint8_t(p.data[(3 + i) / 4] >> (24 - 8 * ((3 + i) % 4)));
}

// what the UMP specification asks of the packets of one sysex7 message with content id+data
void well_formed7(const sink& s, uint8_t group, const uint8_t* raw, unsigned size)
{
    const unsigned want = (size + 5) / 6;
    vp_eq(s.n, want, "sysex7: as many packets as needed, all but the last full");
    for (unsigned k = 0; k < want; ++k)
    {
        const auto&    p      = s.p[k];
        const unsigned format = want == 1 ? 0 : k == 0 ? 1 : k + 1 == want ? 3 : 2;
        const unsigned n      = k + 1 == want ? size - 6 * k : 6;
        vp_eq(p.data[0] >> 16, 0x3000u | uint32_t(group) << 8 | format << 4 | n, "sysex7: complete, or start, continue..., end, with group and byte count");
        for (unsigned i = 0; i < 6; ++i)
            vp_eq(payload7(p, i), i < n ? raw[6 * k + i] : 0, "sysex7: payload is manufacturer id and data in order, padded with 0");
        vp_eq(p.data[2] | p.data[3], 0, "sysex7: packets are 64 bit");
    }
}
void well_formed8(const sink& s, uint8_t group, uint8_t stream, const uint8_t* raw, unsigned size)
{
    const unsigned want = (size + 12) / 13;
    vp_eq(s.n, want, "sysex8: as many packets as needed, all but the last full");
    for (unsigned k = 0; k < want; ++k)
    {
        const auto&    p      = s.p[k];
        const unsigned format = want == 1 ? 0 : k == 0 ? 1 : k + 1 == want ? 3 : 2;
        const unsigned n      = k + 1 == want ? size - 13 * k : 13;
        vp_eq(p.data[0] >> 8, 0x500000u | uint32_t(group) << 16 | format << 12 | (n + 1) << 8 | stream, "sysex8: complete, or start, continue..., end, with group, byte count and stream id");
        for (unsigned i = 0; i < 13; ++i)
            vp_eq(payload8(p, i), i < n ? raw[13 * k + i] : 0, "sysex8: payload is manufacturer id and data in order, padded with 0");
    }
}


// one arbitrary content, used for every size
struct content
{
    uint8_t  id1, id2, group, stream;
    uint8_t  data[1024];
    explicit content(unsigned max, bool seven_bit)
    {
        id1    = u7("id", 0);
        id2    = u7("id", 0);
        group  = u4("group", 0);
        stream = u8("stream", 0);
        vp_assume(id1 != 0);
        for (unsigned i = 0; i < max; ++i)
            data[i] = seven_bit ? u7("data", 1) : u8("data", 1);
    }
};
enum id_kind
{
    id_one,        // aa
    id_three,      // 00 aa bb
    id_three_low,  // 00 00 aa
};
uint32_t id_of(const content& c, id_kind k)
{
    return k == id_one ? uint32_t(c.id1) << 16 : k == id_three ? uint32_t(c.id1) << 8 | c.id2 : c.id1;
}

void sysex7_of(const content& c, unsigned size, id_kind kind)
{
    uint8_t  raw[1024];
    unsigned n = 0;
    if (kind == id_one)
        raw[n++] = c.id1;
    else
    {
        raw[n++] = 0;
        raw[n++] = kind == id_three ? c.id1 : 0;
        raw[n++] = kind == id_three ? c.id2 : c.id1;
    }
    for (unsigned i = 0; i < size; ++i)
        raw[n++] = c.data[i];
    const sysex7 m{ id_of(c, kind), c.data, size };
    sink         s;
    send_sysex7(m, c.group, s);
    well_formed7(s, c.group, raw, n);
    vp_eq(m.total_data_size(), n, "total data size counts id and data");

    const auto v = as_sysex7_packets(m, c.group);
    vp_eq(v.size(), s.n, "as_sysex7_packets gives the packets of send_sysex7");
    for (unsigned k = 0; k < s.n; ++k)
        same_words(v[k], s.p[k], "as_sysex7_packets gives the packets of send_sysex7");
}
void sysex8_of(const content& c, unsigned size, id_kind kind)
{
    uint8_t  raw[1024];
    unsigned n = 0;
    if (kind == id_one)
    {
        raw[n++] = 0;
        raw[n++] = c.id1;
    }
    else
    {
        raw[n++] = 0x80 | (kind == id_three ? c.id1 : 0);
        raw[n++] = kind == id_three ? c.id2 : c.id1;
    }
    for (unsigned i = 0; i < size; ++i)
        raw[n++] = c.data[i];
    const sysex8 m{ id_of(c, kind), c.data, size };
    sink         s;
    send_sysex8(m, c.stream, c.group, s);
    well_formed8(s, c.group, c.stream, raw, n);

    const auto v = as_sysex8_packets(m, c.stream, c.group);
    vp_eq(v.size(), s.n, "as_sysex8_packets gives the packets of send_sysex8");
    for (unsigned k = 0; k < s.n; ++k)
        same_words(v[k], s.p[k], "as_sysex8_packets gives the packets of send_sysex8");
}
void sizes7(unsigned from, unsigned to)
{
    const content c{ to, true };
    for (unsigned n = from; n <= to; ++n)
        for (auto kind : { id_one, id_three, id_three_low })
            sysex7_of(c, n, kind);
}
void sizes8(unsigned from, unsigned to)
{
    const content c{ to, false };
    for (unsigned n = from; n <= to; ++n)
        for (auto kind : { id_one, id_three, id_three_low })
            sysex8_of(c, n, kind);
}
} // namespace

VPE(sysex7_0_20) { sizes7(0, 20); }
VPE(sysex7_21_40) { sizes7(21, 40); }
VPE(sysex7_100) { sizes7(97, 103); }
VPE(sysex7_260) { sizes7(250, 262); }
VPE(sysex8_0_20) { sizes8(0, 20); }
VPE(sysex8_21_45) { sizes8(21, 45); }
VPE(sysex8_100) { sizes8(100, 118); }
VPE(sysex8_260) { sizes8(250, 266); }
#if VP_THOROUGH
VPE(sysex7_41_90) { sizes7(41, 90); }
VPE(sysex7_500) { sizes7(500, 530); }
VPE(sysex7_900) { sizes7(900, 912); }
VPE(sysex8_46_99) { sizes8(46, 99); }
VPE(sysex8_500) { sizes8(500, 530); }
VPE(sysex8_900) { sizes8(900, 918); }
#endif

// large messages: every packet is compared as it comes
namespace {
void large7(const large& c, bool one, unsigned size)
{
    const auto     m     = c.message<sysex7>(one, size);
    const unsigned total = size + (one ? 1 : 3), packets = (total + 5) / 6;
    unsigned       k     = 0;
    send_sysex7(m, c.group, [&](const universal_packet& p) {
        const unsigned at = 6 * k, n = total - at < 6 ? total - at : 6;
        const unsigned format = packets == 1 ? 0 : k == 0 ? 1 : k + 1 == packets ? 3 : 2;
        vp_check(k < packets, "large sysex7: no packet too many");
        uint8_t b[6] = {};
        for (unsigned i = 0; i < n && at < total; ++i)
            b[i] = c.raw7(one, at + i);
        words(p, 0x30000000u | uint32_t(c.group) << 24 | format << 20 | n << 16 | uint32_t(b[0]) << 8 | b[1],
              uint32_t(b[2]) << 24 | uint32_t(b[3]) << 16 | uint32_t(b[4]) << 8 | b[5], 0, 0, "large sysex7: every packet carries the next bytes of the message");
        ++k;
    });
    vp_eq(k, packets, "large sysex7: number of packets");
    vp_eq(m.total_data_size(), total, "large sysex7: total data size");
}
void large8(const large& c, bool one, unsigned size)
{
    const auto     m     = c.message<sysex8>(one, size);
    const unsigned total = size + 2, packets = (total + 12) / 13;
    unsigned       k     = 0;
    send_sysex8(m, c.stream, c.group, [&](const universal_packet& p) {
        const unsigned at = 13 * k, n = total - at < 13 ? total - at : 13;
        const unsigned format = packets == 1 ? 0 : k == 0 ? 1 : k + 1 == packets ? 3 : 2;
        vp_check(k < packets, "large sysex8: no packet too many");
        uint8_t b[16] = { uint8_t(0x50 | c.group), uint8_t(format << 4 | (n + 1)), c.stream };
        for (unsigned i = 0; i < n && at < total; ++i)
            b[3 + i] = c.raw8(one, at + i);
        uint32_t w[4];
        for (unsigned i = 0; i < 4; ++i)
            w[i] = uint32_t(b[4 * i]) << 24 | uint32_t(b[4 * i + 1]) << 16 | uint32_t(b[4 * i + 2]) << 8 | b[4 * i + 3];
        words(p, w[0], w[1], w[2], w[3], "large sysex8: every packet carries the next bytes of the message");
        ++k;
    });
    vp_eq(k, packets, "large sysex8: number of packets");
}
} // namespace
// sizes around a power of two, for both lengths of the id
static void around7(unsigned n, unsigned below, unsigned above)
{
    const large c{ true };
    for (unsigned k = n - below; k <= n + above; ++k)
        for (bool one : { true, false })
            large7(c, one, k);
}
static void around8(unsigned n, unsigned below, unsigned above)
{
    const large c{ false };
    for (unsigned k = n - below; k <= n + above; ++k)
        for (bool one : { true, false })
            large8(c, one, k);
}
VPE(large7_512) { around7(512, 5, 7); }
VPE(large7_1024) { around7(1024, 5, 4); }
VPE(large7_1536) { around7(1536, 4, 2); }
VPE(large7_2048) { around7(2048, 4, 2); }
VPE(large7_4096) { around7(4096, 4, 1); }
VPE(large7_16384) { around7(16384, 1, 0); }
VPE(large7_70000) { const large c{ true }; large7(c, true, 70000); }
VPE(large8_512) { around8(512, 5, 14); }
VPE(large8_1024) { around8(1024, 5, 10); }
VPE(large8_2048) { around8(2048, 4, 2); }
VPE(large8_3328) { around8(3328, 4, 2); }
VPE(large8_4096) { around8(4096, 4, 1); }
VPE(large8_16384) { around8(16384, 1, 0); }
VPE(large8_70000) { const large c{ false }; large8(c, false, 70000); }
#if VP_THOROUGH
VPE(large7_8192) { around7(8192, 4, 6); }
VPE(large7_32768) { around7(32768, 3, 1); }
VPE(large7_65536) { around7(65536, 4, 1); }
VPE(large7_400000) { const large c{ true }; large7(c, false, 400000); }
VPE(large8_8192) { around8(8192, 4, 10); }
VPE(large8_32768) { around8(32768, 3, 1); }
VPE(large8_65536) { around8(65536, 4, 1); }
VPE(large8_900000) { const large c{ false }; large8(c, true, 900000); }
#endif
