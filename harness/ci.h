#pragma once
#include "vp.h"
#include <midi/capability_inquiry.h>

// an arbitrary message with a given number of arbitrary data bytes (8 bit: nothing may be assumed about received data)
struct received
{
    midi::sysex7 m;
    uint8_t      b[160];
    uint32_t     id;
    unsigned     size;
    explicit received(unsigned n)
      : size(n)
    {
        id = u32("id", 0);
        for (unsigned i = 0; i < n; ++i)
            b[i] = u8("b", i < 4 ? 1 : 4 + i);
        m = midi::sysex7{ id, b, n };
    }
    // same, a Capability Inquiry message of given subtype (header bytes fixed, everything behind arbitrary)
    received(unsigned n, uint8_t subtype)
      : size(n)
    {
        id = 0x7E0000;
        for (unsigned i = 0; i < n; ++i)
            b[i] = i == 1 ? 0x0D : i == 2 ? subtype : u8("b", 4 + i);
        m = midi::sysex7{ id, b, n };
    }
    uint32_t u14(unsigned p) const { return b[p] | uint32_t(b[p + 1]) << 7; }
    uint32_t u28(unsigned p) const { return b[p] | uint32_t(b[p + 1]) << 7 | uint32_t(b[p + 2]) << 14 | uint32_t(b[p + 3]) << 21; }
    bool     ci(unsigned min) const { return id == 0x7E0000 && size >= min && b[1] == 0x0D; }
    size_t   off(const uint8_t* p) const { return size_t(p - m.data.data()); }
};

template<typename F>
inline void for_sizes(F f, unsigned from, unsigned to, unsigned step = 1)
{
    for (unsigned n = from; n <= to; n += step)
        f(n);
}
