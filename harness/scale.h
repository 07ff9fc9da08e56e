// MIDI 2.0 bit scaling (M2-115 translation): shift below or at the centre, "bit repeat" above it
#pragma once
#include <cstdint>
inline uint32_t scale_up(uint32_t v, unsigned from, unsigned to)
{
    const uint32_t centre = 1u << (from - 1);
    const unsigned up     = to - from;
    uint32_t       s      = v << up;
    const unsigned rb     = from - 1;
    const uint32_t rep    = v & ((1u << rb) - 1);
    uint32_t       fill   = 0;
    int            sh     = int(up) - int(rb);
    for (; sh >= 0; sh -= int(rb))
        fill |= rep << sh;
    if (-sh < int(rb))
        fill |= rep >> (-sh);
    return v <= centre ? s : (s | fill);
}
