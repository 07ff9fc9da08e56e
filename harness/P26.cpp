// P26: the text form of packets
#include "vp.h"
#include <iostream>
#include <midi/universal_packet.h>
using namespace midi;

namespace {
constexpr unsigned sizes[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };

char hex_digit(unsigned v, bool upper = false) { return char(v < 10 ? '0' + v : (upper ? 'A' : 'a') + v - 10); }

universal_packet any(unsigned type)
{
    return universal_packet{ (type << 28) | uint32_t(vp_sym("w0", 28, 1)), u32("w1", 2), u32("w2", 3), u32("w3", 4) };
}

// the specified text of a packet; returns its length
unsigned text_of(const universal_packet& p, unsigned words, char* t, bool upper = false)
{
    unsigned n = 0;
    for (unsigned w = 0; w < words; ++w)
    {
        if (w)
            t[n++] = ' ';
        for (unsigned d = 0; d < 8; ++d)
            t[n++] = hex_digit((p.data[w] >> (28 - 4 * d)) & 15, upper);
    }
    return n;
}
} // namespace

static void write(unsigned type)
{
    const auto     p = any(type);
    std::ostream   o;
    const unsigned b = unsigned(vp_sym("base", 2, 0)), a = unsigned(vp_sym("adjust", 2, 0));
    vp_assume(b < 3);
    const auto f = (b == 0 ? std::ios_base::dec : b == 1 ? std::ios_base::hex : std::ios_base::oct) |
                   (a == 0 ? 0u : a == 1 ? std::ios_base::left : a == 2 ? std::ios_base::right : std::ios_base::internal) |
                   (ubool("skipws", 0) ? std::ios_base::skipws : 0u) | (ubool("showbase", 0) ? std::ios_base::showbase : 0u) |
                   (ubool("showpos", 0) ? std::ios_base::showpos : 0u) | (ubool("uppercase", 0) ? std::ios_base::uppercase : 0u);
    const char fill = char(u8("fill", 0));
    o.flags(f);
    o.fill(fill);
    char           want[36];
    const unsigned n = text_of(p, sizes[type], want, (f & std::ios_base::uppercase) != 0);
    if (ubool("width", 0))
        o.width(20);
    std::ostream&  r = o << p;
    vp_check(&r == &o, "writing returns the stream");
    vp_eq(o.m_size, n, "a packet is written as 8 digits per word, separated by one space");
    for (unsigned i = 0; i < n; ++i)
        vp_eq(uint8_t(o.m_text[i]), uint8_t(want[i]), "a packet is written in hexadecimal digits, lower case unless the stream says otherwise, words in order");
    vp_eq(o.flags(), f, "writing leaves the stream's format flags as they were");
    vp_eq(uint8_t(o.fill()), uint8_t(fill), "writing leaves the stream's fill character as it was");
    vp_eq(uint64_t(o.width()), 0, "writing leaves no field width behind");
    vp_check(o.good(), "writing succeeds");
}
VPE(write_0) { write(0); }
VPE(write_1) { write(1); }
VPE(write_2) { write(2); }
VPE(write_3) { write(3); }
VPE(write_4) { write(4); }
VPE(write_5) { write(5); }
VPE(write_6) { write(6); }
VPE(write_7) { write(7); }
VPE(write_8) { write(8); }
VPE(write_9) { write(9); }
VPE(write_10) { write(10); }
VPE(write_11) { write(11); }
VPE(write_12) { write(12); }
VPE(write_13) { write(13); }
VPE(write_14) { write(14); }
VPE(write_15) { write(15); }

// several packets in one line
VPE(write_two)
{
    const auto   p = any(4), q = any(2);
    std::ostream o;
    o << p << '|' << q;
    char           want[64];
    unsigned       n = text_of(p, 2, want);
    want[n++]        = '|';
    n += text_of(q, 1, want + n);
    vp_eq(o.m_size, n, "packets can be written after each other");
    for (unsigned i = 0; i < n; ++i)
        vp_eq(uint8_t(o.m_text[i]), uint8_t(want[i]), "packets can be written after each other");
}

VPE(read)
{
    for (unsigned type = 0; type < 16; ++type)
        for (unsigned tail = 0; tail < 3; ++tail)
        {
            const auto p = any(type);
            char       t[40];
            unsigned   n = text_of(p, sizes[type], t, ubool("uppercase", 0));
            const auto len = n;
            if (tail)
                t[n++] = tail == 1 ? ' ' : '\n', t[n++] = 'z';
            std::istream i;
            i.m_text = t, i.m_size = n;
            const unsigned b = unsigned(vp_sym("base", 2, 0));
            const auto     f = (b == 0 ? std::ios_base::dec : b == 1 ? std::ios_base::hex : b == 2 ? std::ios_base::oct : 0u) | std::ios_base::skipws;
            i.flags(f);
            universal_packet r{ u32("old", 5), u32("old", 5), u32("old", 5), u32("old", 5) };
            std::istream&    s = i >> r;
            vp_check(&s == &i, "reading returns the stream");
            vp_check(!i.fail(), "the text of a packet is read successfully");
            vp_eq(i.eof(), tail == 0, "the text of a packet is read successfully");
            for (unsigned w = 0; w < sizes[type]; ++w)
                vp_eq(r.data[w], p.data[w], "reading the text of a packet returns the packet");
            vp_eq(i.m_pos, len, "reading consumes the text of one packet");
            vp_eq(i.flags(), f, "reading leaves the stream's format flags as they were");
        }
}

// two packets in one text
VPE(read_two)
{
    const auto p = any(4), q = any(1);
    char       t[64];
    unsigned   n = text_of(p, 2, t);
    t[n++]       = '\n';
    n += text_of(q, 1, t + n);
    std::istream i;
    i.m_text = t, i.m_size = n;
    universal_packet a, b;
    i >> a >> b;
    vp_check(!i.fail(), "two packets are read successfully");
    vp_eq(a.data[0], p.data[0], "two packets are read one after the other");
    vp_eq(a.data[1], p.data[1], "two packets are read one after the other");
    vp_eq(b.data[0], q.data[0], "two packets are read one after the other");
}

// a text that ends early or contains something else is never taken for a packet
VPE(read_incomplete)
{
    for (unsigned type = 0; type < 16; ++type)
        for (unsigned words = 0; words < sizes[type]; ++words)
            for (unsigned tail = 0; tail < 3; ++tail)
            {
                const auto p = any(type);
                char       t[40];
                unsigned   n = text_of(p, words, t);
                if (tail == 1)
                    t[n++] = ' ';
                if (tail == 2)
                    t[n++] = words ? ' ' : 'z', t[n++] = 'z', t[n++] = ' ', t[n++] = '1';
                std::istream i;
                i.m_text = t, i.m_size = n;
                const auto       f = i.flags();
                universal_packet r;
                i >> r;
                vp_check(i.fail(), "an incomplete or invalid text is not taken for a packet");
                vp_eq(i.flags(), f, "a failed read leaves the stream's format flags as they were");
            }
}

// a word of more than 32 bits is not silently shortened
VPE(read_overlong)
{
    char t[12];
    for (unsigned d = 0; d < 9; ++d)
        t[d] = hex_digit(d ? unsigned(vp_sym("d", 4, 1)) : 1 + unsigned(vp_sym("d", 3, 1)));
    std::istream i;
    i.m_text = t, i.m_size = 9;
    universal_packet r;
    i >> r;
    vp_check(i.fail(), "a word of more than 8 digits is not taken for a packet");
}
