// P01: universal_packet accessor / mutator algebra
#include "packet.h"
using namespace midi;

VPE(fields)
{
    const auto p = any_packet();
    vp_eq(uint64_t(p.type()), p.data[0] >> 28, "universal_packet::type() is the top nibble of word 0");
    vp_eq(p.group(), (p.data[0] >> 24) & 0xF, "universal_packet::group() is the second nibble of word 0");
    vp_eq(p.status(), (p.data[0] >> 16) & 0xFF, "universal_packet::status() is byte 1 of word 0");
    vp_eq(p.byte2(), (p.data[0] >> 16) & 0xFF, "universal_packet::byte2()");
    vp_eq(p.byte3(), (p.data[0] >> 8) & 0xFF, "universal_packet::byte3()");
    vp_eq(p.byte4(), p.data[0] & 0xFF, "universal_packet::byte4()");
    vp_eq(p.channel(), (p.data[0] >> 16) & 0xF, "universal_packet::channel() is the low status nibble");
    const unsigned t = p.data[0] >> 28;
    vp_check(p.has_channel() == (t == 2 || t == 4 || t == 13), "universal_packet::has_channel() iff type 2, 4 or D");
    vp_check(p.is_utility_message() == (t == 0), "universal_packet::is_utility_message()");
    vp_check(p.is_system_message() == (t == 1), "universal_packet::is_system_message()");
    vp_check(p.is_channel_voice_message() == (t == 2 || t == 4), "universal_packet::is_channel_voice_message()");
    vp_check(p.is_data_message() == (t == 3 || t == 5), "universal_packet::is_data_message()");
}
VPE(size)
{
    const auto p = any_packet();
    // UMP 1.1, table of message types: number of 32-bit words
    constexpr uint8_t words_of[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
    vp_eq(p.size(), words_of[p.data[0] >> 28], "universal_packet::size() is the UMP word count of the type");
}
VPE(get_byte)
{
    const auto p = any_packet();
    for (unsigned b = 0; b < 16; ++b)
    {
        vp_eq(p.get_byte(b), (p.data[b / 4] >> (8 * (3 - b % 4))) & 0xFF, "universal_packet::get_byte(b) is the b-th big-endian byte");
        vp_eq(p.get_byte_7bit(b), (p.data[b / 4] >> (8 * (3 - b % 4))) & 0x7F, "universal_packet::get_byte_7bit(b)");
    }
}
VPE(set_byte)
{
    const auto    p = any_packet();
    const uint8_t v = u8("v");
    for (unsigned b = 0; b < 16; ++b)
    {
        auto q = p, r = p;
        q.set_byte(b, v);
        r.set_byte_7bit(b, v);
        for (unsigned i = 0; i < 16; ++i)
        {
            const uint8_t old = (p.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF;
            vp_eq((q.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF, i == b ? v : old, "universal_packet::set_byte(b, v) changes byte b to v and nothing else");
            vp_eq((r.data[i / 4] >> (8 * (3 - i % 4))) & 0xFF, i == b ? (v & 0x7F) : old, "universal_packet::set_byte_7bit(b, v) changes byte b to v & 7F and nothing else");
        }
    }
}
VPE(set_byte_any_index)
{
    const auto   p = any_packet();
    const size_t b = sym<size_t>("b", 0);
    auto         q = p;
    vp_assume(b >= 16);
    q.set_byte(b, u8("v"));
    same_words(q, p, "universal_packet::set_byte with an invalid index leaves the packet unchanged");
}
VPE(set_type)
{
    const auto p = any_packet();
    const auto t = u4("t");
    auto       q = p;
    q.set_type(static_cast<packet_type>(t));
    words(q, (p.data[0] & 0x0FFFFFFFu) | (uint32_t(t) << 28), p.data[1], p.data[2], p.data[3], "universal_packet::set_type changes the type nibble and nothing else");
}
VPE(set_group)
{
    const auto p = any_packet();
    const auto g = u4("g");
    auto       q = p;
    q.set_group(g);
    words(q, (p.data[0] & 0xF0FFFFFFu) | (uint32_t(g) << 24), p.data[1], p.data[2], p.data[3], "universal_packet::set_group changes the group nibble and nothing else");
}
VPE(construct)
{
    const uint32_t a = u32("a"), b = u32("b"), c = u32("c"), d = u32("d");
    words(universal_packet{}, 0, 0, 0, 0, "default constructed universal_packet is all zero");
    words(universal_packet{ a }, a, 0, 0, 0, "universal_packet(w)");
    words(universal_packet{ a, b }, a, b, 0, 0, "universal_packet(w1, w2)");
    words(universal_packet{ a, b, c }, a, b, c, 0, "universal_packet(w1, w2, w3)");
    words(universal_packet{ a, b, c, d }, a, b, c, d, "universal_packet(w1, w2, w3, w4)");
    universal_packet p{ a, b, c, d };
    const auto       q = p;
    words(q, a, b, c, d, "universal_packet copy construction");
    universal_packet r;
    r = p;
    words(r, a, b, c, d, "universal_packet copy assignment");
    p.reset();
    words(p, 0, 0, 0, 0, "universal_packet::reset() clears all words");
}
VPE(equality)
{
    const auto p = any_packet("p"), q = any_packet("q");
    constexpr uint8_t words_of[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
    const unsigned    n            = words_of[p.data[0] >> 28];
    bool              eq           = true;
    for (unsigned i = 0; i < 4; ++i)
        if (i < n && p.data[i] != q.data[i])
            eq = false;
    vp_check((p == q) == eq, "universal_packet::operator== compares exactly the words that belong to the message");
    vp_check((p != q) == !eq, "universal_packet::operator!= is the negation of operator==");
    vp_check((p == q) == (q == p), "universal_packet::operator== is symmetric");
    vp_check(p == p, "universal_packet::operator== is reflexive");
}
VPE(midi1_protocol)
{
    const auto     p = any_packet();
    const unsigned t = p.data[0] >> 28, s = (p.data[0] >> 16) & 0xFF;
    bool           e = false;
    if (t == 2)
        e = s >= 0x80 && s <= 0xEF;
    if (t == 1)
        e = s == 0xF1 || s == 0xF2 || s == 0xF3 || s == 0xF6 || s == 0xF8 || s == 0xFA || s == 0xFB || s == 0xFC || s == 0xFE || s == 0xFF;
    vp_check(p.is_midi1_protocol_message() == e, "universal_packet::is_midi1_protocol_message() iff the packet has a MIDI 1.0 byte form");
}
