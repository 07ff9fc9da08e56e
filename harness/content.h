// arbitrary sysex messages of a given size
#pragma once
#include "packet.h"
#include <midi/sysex.h>

enum id_kind
{
    id_one,       // aa
    id_three,     // 00 aa bb
    id_three_low, // 00 00 aa
};
struct content
{
    uint8_t id1, id2, group, stream;
    uint8_t data[1024];
    content(unsigned max, bool seven_bit)
    {
        id1    = u7("id", 0);
        id2    = u7("id", 0);
        group  = u4("group", 0);
        stream = u8("stream", 0);
        vp_assume(id1 != 0);
        for (unsigned i = 0; i < max; ++i)
            data[i] = seven_bit ? u7("data", 1) : u8("data", 1);
    }
    uint32_t id(id_kind k) const { return k == id_one ? uint32_t(id1) << 16 : k == id_three ? uint32_t(id1) << 8 | id2 : id1; }
};
template<typename M>
struct received
{
    M        m[4];
    uint8_t  stream[4];
    unsigned n = 0;
    void     operator()(const M& x)
    {
        if (n < 4)
            m[n] = x;
        ++n;
    }
    void operator()(const M& x, uint8_t s)
    {
        if (n < 4)
        {
            m[n]      = x;
            stream[n] = s;
        }
        ++n;
    }
};
inline void same_message(const midi::sysex& m, uint32_t id, const uint8_t* d, unsigned size, const char* rule)
{
    vp_eq(m.manufacturerID, id, rule);
    vp_eq(m.data.size(), size, rule);
    for (unsigned i = 0; i < size; ++i)
        vp_eq(m.data[i], d[i], rule);
}
