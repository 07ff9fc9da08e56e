// P17: names of any length are sent as well-formed packet sequences and can be put together again
#include "packet.h"
#include <midi/stream_message.h>
using namespace midi;

namespace {
#if VP_THOROUGH
constexpr unsigned max_text = 200;
#else
constexpr unsigned max_text = 100;
#endif

struct sink
{
    universal_packet p[20];
    unsigned         n = 0;
    template<typename P>
    void operator()(const P& x)
    {
        p[n] = x;
        ++n;
    }
};
uint8_t byte_at(const universal_packet& p, unsigned i)
{
    return uint8_t(p.data[i / 4] >> (8 * (3 - i % 4)));
}

char text[max_text];
void any_text(unsigned n, unsigned bits)
{
    for (unsigned i = 0; i < n; ++i)
        text[i] = char(vp_sym("char", bits, 8));
}
// no zero bytes, by construction
void any_string(unsigned n, unsigned bits)
{
    for (unsigned i = 0; i < n; ++i)
        text[i] = char((vp_sym("char", bits - 1, 8) << 1) | 1);
}

// at: position of the first text byte in a packet
void well_formed(const sink& s, unsigned status, unsigned block, unsigned at, unsigned n)
{
    const unsigned room = 16 - at;
    const unsigned want = n == 0 ? 1 : (n + room - 1) / room;
    vp_eq(s.n, want, "a name is sent in as few packets as possible, at least one");
    for (unsigned k = 0; k < want; ++k)
    {
        const unsigned format = want == 1 ? 0 : k == 0 ? 1 : k + 1 == want ? 3 : 2;
        vp_eq(s.p[k].data[0] >> 16, 0xF000u | format << 10 | status, "a name is one complete packet, or start, continue..., end");
        if (at == 3)
            vp_eq(byte_at(s.p[k], 2), block, "every packet of a function block name has its function block");
        for (unsigned i = 0; i < room; ++i)
        {
            const unsigned j = k * room + i;
            vp_eq(byte_at(s.p[k], at + i), j < n ? uint8_t(text[j]) : 0, "the packets carry the bytes of the name in order, padded with 0");
        }
    }
}
template<typename View>
void readable(const sink& s, unsigned n, View&& view)
{
    unsigned j = 0;
    for (unsigned k = 0; k < s.n; ++k)
    {
        const auto v = view(s.p[k]);
        vp_eq(v.has_value(), 1, "every packet of a name has a view");
        const auto t = v->payload();
        for (unsigned i = 0; i < t.size(); ++i, ++j)
            vp_eq(uint8_t(t[i]), uint8_t(text[j]), "the payloads of the packets put together are the name");
    }
    vp_eq(j, n, "the payloads of the packets put together have the length of the name");
}
} // namespace

VPE(endpoint_name)
{
    any_text(max_text, 8);
    for (unsigned n = 0; n <= max_text; ++n)
    {
        sink s;
        send_endpoint_name(std::string_view(text, n), s);
        well_formed(s, 0x003, 0, 2, n);
    }
}
VPE(endpoint_name_read)
{
    any_string(max_text, 8);
    for (unsigned n = 0; n <= 43; ++n)
    {
        sink s;
        send_endpoint_name(std::string_view(text, n), s);
        readable(s, n, [](const universal_packet& p) { return as_endpoint_name_view(p); });
    }
}
VPE(product_instance_id)
{
    any_text(16, 7);
    for (unsigned n = 0; n <= 16; ++n)
    {
        sink s;
        send_product_instance_id(std::string_view(text, n), s);
        well_formed(s, 0x004, 0, 2, n);
    }
}
VPE(product_instance_id_read)
{
    any_string(16, 7);
    for (unsigned n = 0; n <= 16; ++n)
    {
        sink s;
        send_product_instance_id(std::string_view(text, n), s);
        readable(s, n, [](const universal_packet& p) { return as_product_instance_id_view(p); });
    }
}
VPE(function_block_name)
{
    any_text(max_text, 8);
    const uint8_t fb = u7("function_block");
    for (unsigned n = 0; n <= max_text; ++n)
    {
        sink s;
        send_function_block_name(fb, std::string_view(text, n), s);
        well_formed(s, 0x012, fb, 3, n);
    }
}
VPE(function_block_name_read)
{
    any_string(max_text, 8);
    const uint8_t fb = u7("function_block");
    for (unsigned n = 0; n <= 40; ++n)
    {
        sink s;
        send_function_block_name(fb, std::string_view(text, n), s);
        readable(s, n, [](const universal_packet& p) { return as_function_block_name_view(p); });
        for (unsigned k = 0; k < s.n; ++k)
            vp_eq(as_function_block_name_view(s.p[k])->function_block(), fb, "every packet of a function block name tells its function block");
    }
}
// what a receiver reads from any packet: the bytes up to the first zero byte
VPE(payload_end)
{
    const unsigned   at = 2;
    universal_packet p  = any_packet("w", 8);
    p.data[0]           = (p.data[0] & 0xFFFF) | 0xF0030000;
    const auto s        = endpoint_name_view{ p }.payload();
    unsigned   n        = 0;
    while (n < 14 && byte_at(p, at + n))
        ++n;
    vp_eq(s.size(), n, "a name's payload ends at the first zero byte");
    for (unsigned i = 0; i < 14; ++i)
        if (i < n)
            vp_eq(uint8_t(s[i]), byte_at(p, at + i), "a name's payload has the bytes in front of it");
}

// long names: every packet is compared as it comes; the bytes are taken in turn from a few arbitrary ones
namespace {
struct long_name
{
    char s[23];
    char buffer[5000];
    explicit long_name(unsigned n)
    {
        for (auto& c : s)
            c = char(vp_sym("char", 8, 8));
        for (unsigned i = 0; i < n; ++i)
            buffer[i] = s[i % 23];
    }
};
void long_check(const universal_packet& p, const long_name& t, unsigned k, unsigned want, unsigned status, unsigned block, unsigned at, unsigned n)
{
    const unsigned room = 16 - at, format = want == 1 ? 0 : k == 0 ? 1 : k + 1 == want ? 3 : 2;
    vp_check(k < want, "long name: no packet too many");
    vp_eq(p.data[0] >> 16, 0xF000u | format << 10 | status, "long name: start, continue..., end");
    if (at == 3)
        vp_eq(byte_at(p, 2), block, "long name: every packet has its function block");
    for (unsigned i = 0; i < room; ++i)
        vp_eq(byte_at(p, at + i), k * room + i < n ? uint8_t(t.s[(k * room + i) % 23]) : 0, "long name: bytes in order, padded with 0");
}
void long_names(unsigned from, unsigned to)
{
    const long_name t{ to };
    const uint8_t   fb = u7("function_block");
    for (unsigned n = from; n <= to; ++n)
    {
        unsigned       k    = 0;
        const unsigned want = (n + 13) / 14, want3 = (n + 12) / 13;
        send_endpoint_name(std::string_view{ t.buffer, n }, [&](const universal_packet& p) { long_check(p, t, k++, want, 3, 0, 2, n); });
        vp_eq(k, want, "long name: number of packets");
        k = 0;
        send_function_block_name(fb, std::string_view{ t.buffer, n }, [&](const universal_packet& p) { long_check(p, t, k++, want3, 0x12, fb, 3, n); });
        vp_eq(k, want3, "long name: number of packets");
    }
}
} // namespace
VPE(long_101_180) { long_names(101, 180); }
VPE(long_181_260) { long_names(181, 260); }
VPE(long_261_340) { long_names(261, 340); }
VPE(long_500) { long_names(500, 530); }
VPE(long_1024) { long_names(1018, 1030); }
VPE(long_4100) { long_names(4100, 4100); }
