#pragma once
#include "vp.h"
#include <midi/universal_packet.h>

inline midi::universal_packet any_packet(const char* name = "w", unsigned rank = 8)
{
    midi::universal_packet p;
    // word 0 first in the order: it carries the discriminating fields
    p.data[0] = u32(name, rank);
    p.data[1] = u32(name, rank + 1);
    p.data[2] = u32(name, rank + 1);
    p.data[3] = u32(name, rank + 1);
    return p;
}
inline void same_words(const midi::universal_packet& a, const midi::universal_packet& b, const char* rule)
{
    for (int i = 0; i < 4; ++i)
        vp_eq(a.data[i], b.data[i], rule);
}
inline void words(const midi::universal_packet& p, uint32_t w0, uint32_t w1, uint32_t w2, uint32_t w3, const char* rule)
{
    vp_eq(p.data[0], w0, rule);
    vp_eq(p.data[1], w1, rule);
    vp_eq(p.data[2], w2, rule);
    vp_eq(p.data[3], w3, rule);
}
