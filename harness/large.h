// sysex messages of any size: the bytes are taken in turn from a few arbitrary ones
#pragma once
#include "packet.h"
#include <midi/sysex.h>
#include <vector>

struct large
{
    uint8_t id1, id2, group, stream;
    uint8_t s[17]; // no multiple of a packet's payload
    explicit large(bool seven_bit)
    {
        id1    = u7("id", 0);
        id2    = u7("id", 0);
        group  = u4("group", 0);
        stream = u8("stream", 0);
        vp_assume(id1 != 0);
        for (unsigned i = 0; i < 17; ++i)
            s[i] = seven_bit ? u7("data", 1) : u8("data", 1);
    }
    uint8_t  at(unsigned i) const { return s[i % 17]; }
    uint32_t id(bool one) const { return one ? uint32_t(id1) << 16 : uint32_t(id1) << 8 | id2; }
    template<typename M>
    M message(bool one, unsigned size) const
    {
        M m{ id(one) };
        m.data.resize(size);
        for (unsigned i = 0; i < size; ++i)
            m.data[i] = at(i);
        return m;
    }
    // byte i of the message as sent, manufacturer id included
    uint8_t raw7(bool one, unsigned i) const
    {
        if (one)
            return i ? at(i - 1) : id1;
        return i == 0 ? 0 : i == 1 ? id1 : i == 2 ? id2 : at(i - 3);
    }
    uint8_t raw8(bool one, unsigned i) const
    {
        return i >= 2 ? at(i - 2) : i == 0 ? (one ? 0 : 0x80 | id1) : one ? id1 : id2;
    }
};
