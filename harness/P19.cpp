// P19: a sysex message sent as packets arrives at a collector as the same message
#include "content.h"
#include "large.h"
#include <midi/sysex_collector.h>
using namespace midi;

namespace {
void seven(const content& c, unsigned size, id_kind kind, size_t limit)
{
    const sysex7      m{ c.id(kind), c.data, size };
    received<sysex7>  r;
    sysex7_collector  k{ [&r](const sysex7& x) { r(x); } };
    if (limit)
        k.set_max_sysex_data_size(limit);
    for (unsigned i = 0; i < 2; ++i) // twice: nothing of the first message stays behind
        send_sysex7(m, c.group, [&k](const universal_packet& p) { k.feed(p); });
    vp_eq(r.n, 2, "every sysex7 message sent arrives exactly once");
    for (unsigned i = 0; i < 2; ++i)
        same_message(r.m[i], c.id(kind), c.data, size, "a sysex7 message arrives as it was sent");
}
void eight(const content& c, unsigned size, id_kind kind, size_t limit)
{
    const sysex8     m{ c.id(kind), c.data, size };
    received<sysex8> r;
    sysex8_collector k{ [&r](const sysex8& x, uint8_t s) { r(x, s); } };
    if (limit)
        k.set_max_sysex_data_size(limit);
    for (unsigned i = 0; i < 2; ++i)
        send_sysex8(m, c.stream, c.group, [&k](const universal_packet& p) { k.feed(p); });
    vp_eq(r.n, 2, "every sysex8 message sent arrives exactly once");
    for (unsigned i = 0; i < 2; ++i)
    {
        same_message(r.m[i], c.id(kind), c.data, size, "a sysex8 message arrives as it was sent");
        vp_eq(r.stream[i], c.stream, "a sysex8 message arrives on the stream it was sent on");
    }
}
void sizes7(unsigned from, unsigned to)
{
    const content c{ to, true };
    for (unsigned n = from; n <= to; ++n)
        for (auto kind : { id_one, id_three, id_three_low })
            seven(c, n, kind, 0);
}
void sizes8(unsigned from, unsigned to)
{
    const content c{ to, false };
    for (unsigned n = from; n <= to; ++n)
        for (auto kind : { id_one, id_three, id_three_low })
            eight(c, n, kind, 0);
}
} // namespace

VPE(sysex7_0_30) { sizes7(0, 30); }
VPE(sysex7_31_50) { sizes7(31, 50); }
VPE(sysex7_128) { sizes7(120, 136); }
VPE(sysex7_256) { sizes7(252, 264); }
VPE(sysex8_0_30) { sizes8(0, 30); }
VPE(sysex8_31_60) { sizes8(31, 60); }
VPE(sysex8_128) { sizes8(118, 136); }
VPE(sysex8_256) { sizes8(250, 266); }
#if VP_THOROUGH
VPE(sysex7_51_119) { sizes7(51, 119); }
VPE(sysex7_512) { sizes7(500, 520); }
VPE(sysex7_1024) { sizes7(1018, 1024); }
VPE(sysex8_61_117) { sizes8(61, 117); }
VPE(sysex8_512) { sizes8(500, 520); }
VPE(sysex8_1024) { sizes8(1010, 1024); }
#endif
// a limit that is not exceeded changes nothing
VPE(limit7)
{
    const content c{ 40, true };
    for (unsigned n : { 1u, 5u, 6u, 11u, 12u, 17u, 40u })
        for (auto kind : { id_one, id_three })
            for (unsigned over = 0; over < 3; ++over)
                seven(c, n, kind, n + over);
}
VPE(limit8)
{
    const content c{ 40, false };
    for (unsigned n : { 1u, 11u, 12u, 13u, 24u, 25u, 40u })
        for (auto kind : { id_one, id_three })
            for (unsigned over = 0; over < 3; ++over)
                eight(c, n, kind, n + over);
}

// large messages, compared on arrival; several in a row
namespace {
void large7(const large& c, bool one, unsigned size, unsigned times)
{
    const auto       m = c.message<sysex7>(one, size);
    unsigned         n = 0;
    sysex7_collector k{ [&](const sysex7& x) {
        ++n;
        vp_eq(x.manufacturerID, c.id(one), "a large sysex7 message keeps its manufacturer id");
        vp_eq(x.data.size(), size, "a large sysex7 message arrives with all its bytes");
        for (unsigned i = 0; i < size; ++i)
            vp_eq(x.data[i], c.at(i), "a large sysex7 message arrives as it was sent");
    } };
    for (unsigned i = 0; i < times; ++i)
    {
        send_sysex7(m, c.group, [&k](const universal_packet& p) { k.feed(p); });
        vp_eq(n, i + 1, "every large sysex7 message arrives when its last packet does");
    }
}
void large8(const large& c, bool one, unsigned size, unsigned times)
{
    const auto       m = c.message<sysex8>(one, size);
    unsigned         n = 0;
    sysex8_collector k{ [&](const sysex8& x, uint8_t s) {
        ++n;
        vp_eq(s, c.stream, "a large sysex8 message keeps its stream id");
        vp_eq(x.manufacturerID, c.id(one), "a large sysex8 message keeps its manufacturer id");
        vp_eq(x.data.size(), size, "a large sysex8 message arrives with all its bytes");
        for (unsigned i = 0; i < size; ++i)
            vp_eq(x.data[i], c.at(i), "a large sysex8 message arrives as it was sent");
    } };
    for (unsigned i = 0; i < times; ++i)
    {
        send_sysex8(m, c.stream, c.group, [&k](const universal_packet& p) { k.feed(p); });
        vp_eq(n, i + 1, "every large sysex8 message arrives when its last packet does");
    }
}
} // namespace
VPE(large7_512) { const large c{ true }; for (unsigned n = 507; n < 520; ++n) large7(c, n & 1, n, 1); }
VPE(large7_1024) { const large c{ true }; for (unsigned n = 1021; n < 1027; ++n) large7(c, n & 1, n, 1); }
VPE(large7_2048) { const large c{ true }; for (unsigned n = 2045; n < 2051; ++n) large7(c, n & 1, n, 1); }
VPE(large7_4096) { const large c{ true }; for (unsigned n = 4094; n < 4098; ++n) large7(c, n & 1, n, 1); }
VPE(large7_20000) { const large c{ true }; large7(c, true, 20000, 2); }
VPE(large7_70000) { const large c{ true }; large7(c, false, 70000, 1); }
VPE(many7) { const large c{ true }; large7(c, true, 7, 300); }
VPE(large8_512) { const large c{ false }; for (unsigned n = 507; n < 520; ++n) large8(c, n & 1, n, 1); }
VPE(large8_1024) { const large c{ false }; for (unsigned n = 1021; n < 1027; ++n) large8(c, n & 1, n, 1); }
VPE(large8_2048) { const large c{ false }; for (unsigned n = 2045; n < 2051; ++n) large8(c, n & 1, n, 1); }
VPE(large8_4096) { const large c{ false }; for (unsigned n = 4094; n < 4098; ++n) large8(c, n & 1, n, 1); }
VPE(large8_20000) { const large c{ false }; large8(c, true, 20000, 2); }
VPE(large8_70000) { const large c{ false }; large8(c, false, 70000, 1); }
VPE(many8) { const large c{ false }; large8(c, true, 15, 300); }
