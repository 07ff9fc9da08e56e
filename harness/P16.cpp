// P16: conversion between packets and MIDI 1 bytes
#include "packet.h"
#include <midi/midi1_byte_stream.h>
using namespace midi;

namespace {
// expected bytes, from the MIDI 1.0 message table
unsigned spec_size(const universal_packet& p)
{
    const unsigned type = p.data[0] >> 28, st = (p.data[0] >> 16) & 0xFF;
    if (type == 1)
    {
        if (st == 0xF2)
            return 3;
        if (st == 0xF1 || st == 0xF3)
            return 2;
        if (st == 0xF6 || st == 0xF8 || st == 0xFA || st == 0xFB || st == 0xFC || st == 0xFE || st == 0xFF)
            return 1;
        return 0;
    }
    if (type == 2)
        return st < 0x80 || st >= 0xF0 ? 0 : (st >> 4) == 0xC || (st >> 4) == 0xD ? 2 : 3;
    if (type == 3)
        return (st >> 4) <= 3 && (st & 0xF) <= 6 ? st & 0xF : 0;
    return 0;
}
uint8_t byte_of(const universal_packet& p, unsigned i)
{
    return uint8_t(p.data[i / 4] >> (24 - 8 * (i % 4)));
}
} // namespace

VPE(size)
{
    const auto p = any_packet();
    vp_eq(midi1_byte_stream_size(p), spec_size(p), "number of message bytes of any packet");
}

VPE(to_bytes)
{
    const auto p = any_packet();
    uint8_t    b[8];
    uint8_t    old[8];
    for (int i = 0; i < 8; ++i)
        b[i] = old[i] = u8("old");
    const size_t   n    = to_midi1_byte_stream(p, b);
    const unsigned type = p.data[0] >> 28, st = (p.data[0] >> 16) & 0xFF, size = spec_size(p);
    vp_check(n <= 8, "at most 8 bytes");
    if (type == 1 || type == 2)
    {
        vp_eq(n, size, "system and channel voice: the message's own bytes");
        for (unsigned i = 0; i < 3; ++i)
            if (i < size)
                vp_eq(b[i], byte_of(p, 1 + i), "system and channel voice: status and data bytes");
    }
    else if (type == 3 && (st >> 4) <= 3 && (st & 0xF) <= 6)
    {
        const unsigned format = st >> 4;
        const unsigned lead = format <= 1 ? 1 : 0, tail = (format == 0 || format == 3) ? 1 : 0;
        vp_eq(n, lead + size + tail, "sysex: F0 and F7 belong to the stream exactly at start and end");
        if (lead)
            vp_eq(b[0], 0xF0, "sysex: starts with F0");
        for (unsigned i = 0; i < 6; ++i)
            if (i < size)
                vp_eq(b[lead + i], byte_of(p, 2 + i), "sysex: payload bytes in order");
        if (tail)
            vp_eq(b[lead + size], 0xF7, "sysex: ends with F7");
    }
    else
        vp_eq(n, 0, "other packets have no MIDI 1 bytes");
    for (unsigned i = 0; i < 8; ++i)
        if (i >= n)
            vp_eq(b[i], old[i], "nothing is written behind the returned bytes");
}

VPE(from_bytes)
{
    const uint8_t st = u8("status", 0), d1 = u7("d1"), d2 = u7("d2");
    const auto    p        = from_midi1_byte_stream(st, d1, d2);
    const bool    reserved = st < 0x80 || st == 0xF0 || st == 0xF4 || st == 0xF5 || st == 0xF7 || st == 0xF9 || st == 0xFD;
    if (reserved)
        words(p, 0, 0, 0, 0, "reserved or data status gives an empty packet");
    else
    {
        words(p, (st >= 0xF0 ? 0x10000000u : 0x20000000u) | uint32_t(st) << 16 | uint32_t(d1) << 8 | d2, 0, 0, 0, "packet of type, group 0, status and data");
        uint8_t        b[8] = {};
        const size_t   n    = to_midi1_byte_stream(p, b);
        const unsigned size = spec_size(p);
        vp_eq(n, size, "bytes to packet to bytes keeps the length");
        vp_eq(b[0], st, "bytes to packet to bytes keeps the status");
        if (size > 1)
            vp_eq(b[1], d1, "bytes to packet to bytes keeps data byte 1");
        if (size > 2)
            vp_eq(b[2], d2, "bytes to packet to bytes keeps data byte 2");
    }
}

// packet -> bytes -> parser gives the packet again
VPE(round_trip)
{
    universal_packet p;
    p.data[0]         = uint32_t(vp_sym("head", 16, 0)) << 16 | uint32_t(u7("d1")) << 8 | u7("d2");
    p.data[1]         = uint32_t(u7("s")) << 24 | uint32_t(u7("s")) << 16 | uint32_t(u7("s")) << 8 | u7("s");
    const unsigned type = p.data[0] >> 28, st = (p.data[0] >> 16) & 0xFF, size = spec_size(p);
    // unused fields are zero
    if (type == 1 || type == 2)
    {
        p.data[1] = 0;
        if (size < 3)
            p.data[0] &= ~0xFFu;
        if (size < 2)
            p.data[0] &= ~0xFFFFu;
    }
    if (type == 3)
    {
        for (unsigned i = 0; i < 6; ++i)
            if (i >= size)
                p.data[(2 + i) / 4] &= ~(0xFFu << (24 - 8 * ((2 + i) % 4)));
        vp_assume((st >> 4) == 0 && size > 0 && size < 6); // a full first packet is never the last one of a byte stream
    }
    vp_assume(size > 0 && (type == 1 || type == 2 || type == 3));
    unsigned         calls = 0;
    universal_packet got;
    midi1_byte_stream_parser parser{ uint8_t((p.data[0] >> 24) & 0xF), [&](universal_packet x) {
                                        ++calls;
                                        got = x;
                                    } };
    uint8_t      b[8];
    const size_t n = to_midi1_byte_stream(p, b);
    for (unsigned i = 0; i < 8; ++i)
        if (i < n)
            parser.feed(b[i]);
    vp_eq(calls, 1, "the bytes of a packet parse as one packet");
    same_words(got, p, "packet to bytes to packet is the identity");
}
