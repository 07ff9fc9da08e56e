// P03: stream and flex data messages: wire layout of the factories and what the views read back
#include "packet.h"
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <string_view>
using namespace midi;

static uint32_t shead(unsigned format, unsigned status, unsigned b3, unsigned b4)
{
    return 0xF0000000u | (format << 26) | (status << 16) | (uint32_t(b3 & 0xFF) << 8) | uint32_t(b4 & 0xFF);
}
static uint32_t dhead(unsigned group, unsigned format, unsigned addr, unsigned ch, unsigned bank, unsigned status)
{
    return 0xD0000000u | ((group & 0xF) << 24) | (format << 22) | (addr << 20) | ((ch & 0xF) << 16) | ((bank & 0xFF) << 8) | (status & 0xFF);
}
static packet_format any_format() { return packet_format(vp_sym("format", 2, 2)); }

VPE(stream_base)
{
    const uint16_t st = uint16_t(vp_sym("status", 8, 8));
    const auto     f  = any_format();
    stream_message m(st, f);
    words(m, shead(unsigned(f), st, 0, 0), 0, 0, 0, "stream_message constructor layout");
    words(stream_message(st), shead(0, st, 0, 0), 0, 0, 0, "stream_message default format is complete");
    words(stream_message(), 0xF0000000u, 0, 0, 0, "default stream_message");
    vp_eq(uint64_t(m.format()), uint64_t(f), "stream_message::format reads back");
    vp_eq(m.status(), st, "stream message status reads back");
    m.data[0] |= u16("b34");
    m.data[1] = u32("w1"), m.data[2] = u32("w2"), m.data[3] = u32("w3");
    auto       n = m;
    const auto g = packet_format(vp_sym("format2", 2, 8));
    n.set_format(g);
    words(n, (m.data[0] & 0xF3FFFFFFu) | (uint32_t(g) << 26), m.data[1], m.data[2], m.data[3], "stream_message::set_format changes only the format");
}
VPE(endpoint_discovery)
{
    const uint8_t filter = uint8_t(vp_sym("filter", 5, 8)), ma = u8("major"), mi = u8("minor");
    const auto    m = make_endpoint_discovery_message(filter, ma, mi);
    words(m, shead(0, 0x000, ma, mi), filter, 0, 0, "endpoint discovery layout");
    words(make_endpoint_discovery_message(filter), shead(0, 0x000, 1, 1), filter, 0, 0, "endpoint discovery default version 1.1");
    const auto v = as_endpoint_discovery_view(m);
    vp_check(v.has_value(), "endpoint discovery has a view");
    vp_eq(v->ump_version_major(), ma, "endpoint discovery read back: major");
    vp_eq(v->ump_version_minor(), mi, "endpoint discovery read back: minor");
    vp_eq(v->ump_version(), (unsigned(ma) << 8) | mi, "endpoint discovery read back: version");
    vp_eq(v->filter(), filter, "endpoint discovery read back: filter");
    vp_eq(v->requests_info(), filter & 1, "endpoint discovery requests_info");
    vp_eq(v->requests_device_identity(), (filter >> 1) & 1, "endpoint discovery requests_device_identity");
    vp_eq(v->requests_name(), (filter >> 2) & 1, "endpoint discovery requests_name");
    vp_eq(v->requests_product_instance_id(), (filter >> 3) & 1, "endpoint discovery requests_product_instance_id");
    vp_eq(v->requests_stream_configuration(), (filter >> 4) & 1, "endpoint discovery requests_stream_configuration");
    vp_eq(discovery_filter::endpoint_info | discovery_filter::device_identity << 5 | discovery_filter::endpoint_name << 10 | discovery_filter::product_instance_id << 15 | discovery_filter::stream_configuration << 20,
          1 | 2 << 5 | 4 << 10 | 8 << 15 | 16 << 20, "endpoint discovery filter bits");
}
VPE(endpoint_info)
{
    const uint8_t nfb = u7("num_function_blocks"), pr = uint8_t(vp_sym("protocols", 2, 8)), ex = uint8_t(vp_sym("extensions", 2, 8)), ma = u8("major"), mi = u8("minor");
    const bool    st = ubool("static");
    const auto    m = make_endpoint_info_message(nfb, st, pr, ex, ma, mi);
    words(m, shead(0, 0x001, ma, mi), (uint32_t(st) << 31) | (uint32_t(nfb) << 24) | (uint32_t(pr) << 8) | ex, 0, 0, "endpoint info layout");
    words(make_endpoint_info_message(nfb, st, pr, ex), shead(0, 0x001, 1, 1), m.data[1], 0, 0, "endpoint info default version 1.1");
    const auto v = as_endpoint_info_view(m);
    vp_check(v.has_value(), "endpoint info has a view");
    vp_eq(v->ump_version_major(), ma, "endpoint info read back: major");
    vp_eq(v->ump_version_minor(), mi, "endpoint info read back: minor");
    vp_eq(v->ump_version(), (unsigned(ma) << 8) | mi, "endpoint info read back: version");
    vp_eq(v->num_function_blocks(), nfb, "endpoint info read back: number of function blocks");
    vp_eq(v->static_function_blocks(), st, "endpoint info read back: static function blocks");
    vp_eq(v->protocols(), pr, "endpoint info read back: protocols");
    vp_eq(v->extensions(), ex, "endpoint info read back: extensions");
}
VPE(device_identity)
{
    device_identity d;
    const uint32_t  man = u32("manufacturer") & 0x7F7F7Fu;
    // bits beyond the 14 bit (family, model) and 28 bit (revision) fields do not appear in the message
    const uint16_t  fam16 = u16("family"), mod16 = u16("model");
    const uint32_t  rev32 = u32("revision");
    d.manufacturer = man, d.family = fam16, d.model = mod16, d.revision = rev32;
    const uint16_t  fam = fam16 & 0x3FFF, mod = mod16 & 0x3FFF;
    const uint32_t  rev = rev32 & 0xFFFFFFFu;
    const auto m = make_device_identity_message(d);
    words(m, shead(0, 0x002, 0, 0), man,
          ((fam & 0x7Fu) << 24) | ((fam >> 7) << 16) | ((mod & 0x7Fu) << 8) | (mod >> 7),
          ((rev & 0x7Fu) << 24) | (((rev >> 7) & 0x7F) << 16) | (((rev >> 14) & 0x7F) << 8) | (rev >> 21), "device identity layout");
    const auto v = as_device_identity_view(m);
    vp_check(v.has_value(), "device identity has a view");
    const auto i = v->identity();
    vp_eq(i.manufacturer, man, "device identity read back: manufacturer");
    vp_eq(i.family, fam, "device identity read back: family");
    vp_eq(i.model, mod, "device identity read back: model");
    vp_eq(i.revision, rev, "device identity read back: revision");
}
VPE(stream_configuration)
{
    const uint8_t p = uint8_t(vp_sym("protocol", 2, 8)), e = uint8_t(vp_sym("extensions", 2, 8));
    vp_assume(p != 0 && p != 3);
    const auto a = make_stream_configuration_request(p, e), b = make_stream_configuration_notification(p, e);
    words(a, shead(0, 0x005, p, e), 0, 0, 0, "stream configuration request layout");
    words(b, shead(0, 0x006, p, e), 0, 0, 0, "stream configuration notification layout");
    for (auto* q : { &a, &b })
    {
        const auto v = as_stream_configuration_view(*q);
        vp_check(v.has_value(), "stream configuration has a view");
        vp_eq(v->protocol(), p, "stream configuration read back: protocol");
        vp_eq(v->extensions(), e, "stream configuration read back: extensions");
    }
}
VPE(function_block)
{
    const uint8_t fb = uint8_t(vp_sym("function_block", 5, 8)), filter = uint8_t(vp_sym("filter", 2, 8));
    const bool    all = ubool("all");
    const auto    d   = make_function_block_discovery_message(all ? 0xFF : fb, filter);
    words(d, shead(0, 0x010, all ? 0xFF : fb, filter), 0, 0, 0, "function block discovery layout");
    const auto v = as_function_block_discovery_view(d);
    vp_check(v.has_value(), "function block discovery has a view");
    vp_eq(v->function_block(), all ? 0xFF : fb, "function block discovery read back: block");
    vp_eq(v->filter(), filter, "function block discovery read back: filter");
    vp_eq(v->requests_info(), filter & 1, "function block discovery requests_info");
    vp_eq(v->requests_name(), filter >> 1, "function block discovery requests_name");
    const uint8_t asked = u8("asked");
    vp_eq(v->requests_function_block(asked), all || asked == fb, "function block discovery requests_function_block: all blocks or exactly this one");
}
VPE(function_block_info)
{
    const uint8_t fb = uint8_t(vp_sym("function_block", 5, 8)), dir = uint8_t(vp_sym("direction", 2, 8)), g8 = u8("first_group"), n = uint8_t(vp_sym("num_groups", 5, 8));
    const uint8_t g = g8 & 0xF;
    vp_assume(dir != 0 && n <= 16); // a function block spans up to 16 groups
    const auto m = make_function_block_info_message(fb, dir, g8, n);
    words(m, shead(0, 0x011, 0x80 | fb, (dir << 4) | dir), (uint32_t(g) << 24) | (uint32_t(n) << 16), 0, 0, "function block info layout");
    words(make_function_block_info_message(fb, dir, g8), shead(0, 0x011, 0x80 | fb, (dir << 4) | dir), (uint32_t(g) << 24) | (1u << 16), 0, 0, "function block info spans one group by default");
    function_block_options o;
    vp_check(o.active && o.direction == 3 && o.midi1 == 0 && o.ui_hint == 0 && o.ci_message_version == 0 && o.max_num_sysex8_streams == 0, "function block option defaults");
    o.active = ubool("active"), o.direction = dir, o.midi1 = uint8_t(vp_sym("midi1", 2, 8)), o.ui_hint = uint8_t(vp_sym("ui_hint", 2, 8));
    o.ci_message_version = u8("ci_version"), o.max_num_sysex8_streams = u8("sysex8_streams");
    vp_assume(o.midi1 != 3 && (o.ui_hint == 0 || (o.ui_hint & dir) != 0));
    const uint8_t hint = o.ui_hint ? o.ui_hint : dir;
    const auto    k    = make_function_block_info_message(fb, o, g8, n);
    words(k, shead(0, 0x011, (o.active ? 0x80 : 0) | fb, (hint << 4) | (o.midi1 << 2) | dir),
          (uint32_t(g) << 24) | (uint32_t(n) << 16) | (uint32_t(o.ci_message_version) << 8) | o.max_num_sysex8_streams, 0, 0, "function block info with options layout");
    const auto v = as_function_block_info_view(k);
    vp_check(v.has_value(), "function block info has a view");
    vp_eq(v->active(), o.active, "function block info read back: active");
    vp_eq(v->function_block(), fb, "function block info read back: block");
    vp_eq(v->direction(), dir, "function block info read back: direction");
    vp_eq(v->midi1(), o.midi1, "function block info read back: midi1");
    vp_eq(v->ui_hint(), hint, "function block info read back: ui hint");
    vp_eq(v->first_group(), g, "function block info read back: first group");
    vp_eq(v->num_groups_spanned(), n, "function block info read back: groups spanned");
    vp_eq(v->ci_message_version(), o.ci_message_version, "function block info read back: ci version");
    vp_eq(v->max_num_sysex8_streams(), o.max_num_sysex8_streams, "function block info read back: sysex8 streams");
}
VPE(flex)
{
    const uint8_t  g = u8("group"), b = u8("bank"), s = u8("status");
    const auto     f = any_format();
    const auto     a = packet_address(vp_sym("address", 2, 2));
    const uint8_t  c = a == packet_address::channel ? u4("channel") : 0;
    const uint32_t d1 = u32("d1"), d2 = u32("d2"), d3 = u32("d3");
    const auto     m = make_flex_data_message(g, f, a, c, b, s, d1, d2, d3);
    words(m, dhead(g, unsigned(f), unsigned(a), c, b, s), d1, d2, d3, "flex data layout");
    words(make_flex_data_message(g, f, a, c, b, s), dhead(g, unsigned(f), unsigned(a), c, b, s), 0, 0, 0, "flex data default payload is zero");
    words(flex_data_message(g), dhead(g, 0, 0, 0, 0, 0), 0, 0, 0, "empty flex data layout");
    vp_eq(uint64_t(m.format()), uint64_t(f), "flex data message format reads back");
    vp_eq(uint64_t(m.address()), uint64_t(a), "flex data message address reads back");
    vp_eq(m.status_bank(), b, "flex data message status bank reads back");
    vp_eq(m.status(), s, "flex data message status reads back");
    const auto v = as_flex_data_message_view(m);
    vp_check(v.has_value(), "flex data has a view");
    vp_eq(v->group(), g & 0xF, "flex data read back: group");
    vp_eq(uint64_t(v->format()), uint64_t(f), "flex data read back: format");
    vp_eq(uint64_t(v->address()), uint64_t(a), "flex data read back: address");
    vp_eq(v->channel(), c, "flex data read back: channel");
    vp_eq(v->status_bank(), b, "flex data read back: status bank");
    vp_eq(v->status(), s, "flex data read back: status");
    vp_eq(v->data1(), d1, "flex data read back: data1");
    vp_eq(v->data2(), d2, "flex data read back: data2");
    vp_eq(v->data3(), d3, "flex data read back: data3");
}
VPE(flex_messages)
{
    const uint8_t  g = u8("group");
    const auto     a = packet_address(vp_sym("address", 2, 2));
    const uint8_t  c = a == packet_address::channel ? u4("channel") : 0;
    const uint32_t t = u32("t"), t2 = u32("t2"), t3 = u32("t3");
    const uint8_t  b0 = u8("a"), b1 = u8("b"), b2 = u8("c"), b3 = u8("d"), b4 = u8("e"), b5 = u8("f");
    const unsigned grp = unsigned(packet_address::group);
    vp_eq(grp, 1, "group address is 1");
    vp_eq(unsigned(packet_address::channel), 0, "channel address is 0");
    words(make_set_tempo_message(g, t), dhead(g, 0, grp, 0, 0, 0), t, 0, 0, "set tempo layout");
    words(make_set_time_signature_message(g, b0, b1, b2), dhead(g, 0, grp, 0, 0, 1), (uint32_t(b0) << 24) | (uint32_t(b1) << 16) | (uint32_t(b2) << 8), 0, 0, "set time signature layout");
    words(make_set_metronome_message(g, b0, b1, b2, b3, b4, b5), dhead(g, 0, grp, 0, 0, 2),
          (uint32_t(b0) << 24) | (uint32_t(b1) << 16) | (uint32_t(b2) << 8) | b3, (uint32_t(b4) << 24) | (uint32_t(b5) << 16), 0, "set metronome layout");
    words(make_set_key_signature_message(g, a, c, b0, b1), dhead(g, 0, unsigned(a), c, 0, 5), ((b0 & 0xFu) << 28) | ((b1 & 0xFu) << 24), 0, 0, "set key signature layout");
    words(make_set_chord_message(g, a, c, t, t2, t3), dhead(g, 0, unsigned(a), c, 0, 6), t, t2, t3, "set chord layout");
}
// text: every byte (UTF-8, not only ASCII) keeps its value and position
static uint8_t byte_at(const universal_packet& p, unsigned i) { return uint8_t(p.data[i / 4] >> (8 * (3 - i % 4))); }
static char    text[16];
static void    any_text(unsigned n, bool ascii)
{
    for (unsigned i = 0; i < n; ++i)
    {
        text[i] = char(ascii ? u7("char") : u8("char"));
        vp_assume(text[i] != 0);
    }
}
static void text_bytes(const universal_packet& m, unsigned at, unsigned n, const char* rule)
{
    for (unsigned i = at; i < 16; ++i)
        vp_eq(byte_at(m, i), i - at < n ? uint8_t(text[i - at]) : 0, rule);
}
static void text_string(const std::string& s, unsigned n, const char* rule)
{
    vp_eq(s.size(), n, rule);
    for (unsigned i = 0; i < n; ++i)
        vp_eq(uint8_t(s[i]), uint8_t(text[i]), rule);
}
VPE(endpoint_name)
{
    any_text(14, false);
    const auto f = any_format();
    for (unsigned n = 0; n <= 14; ++n)
    {
        const auto m = make_endpoint_name_message(f, std::string_view(text, n));
        vp_eq(m.data[0] >> 16, shead(unsigned(f), 0x003, 0, 0) >> 16, "endpoint name header");
        text_bytes(m, 2, n, "endpoint name text bytes are carried unchanged");
        const auto v = as_endpoint_name_view(m);
        vp_check(v.has_value(), "endpoint name has a view");
        vp_eq(uint64_t(v->format()), uint64_t(f), "endpoint name read back: format");
        text_string(v->payload(), n, "endpoint name read back: text");
    }
}
VPE(product_instance_id)
{
    any_text(14, true);
    const auto f = any_format();
    vp_assume(f != packet_format::cont);
    for (unsigned n = 0; n <= 14; ++n)
    {
        const auto m = make_product_instance_id_message(f, std::string_view(text, n));
        vp_eq(m.data[0] >> 16, shead(unsigned(f), 0x004, 0, 0) >> 16, "product instance id header");
        text_bytes(m, 2, n, "product instance id text bytes are carried unchanged");
        const auto v = as_product_instance_id_view(m);
        vp_check(v.has_value(), "product instance id has a view");
        vp_eq(uint64_t(v->format()), uint64_t(f), "product instance id read back: format");
        text_string(v->payload(), n, "product instance id read back: text");
    }
}
VPE(function_block_name)
{
    any_text(13, false);
    const auto    f  = any_format();
    const uint8_t fb = u7("function_block");
    for (unsigned n = 0; n <= 13; ++n)
    {
        const auto m = make_function_block_name_message(f, fb, std::string_view(text, n));
        vp_eq(m.data[0] >> 8, shead(unsigned(f), 0x012, fb, 0) >> 8, "function block name header");
        text_bytes(m, 3, n, "function block name text bytes are carried unchanged");
        const auto v = as_function_block_name_view(m);
        vp_check(v.has_value(), "function block name has a view");
        vp_eq(uint64_t(v->format()), uint64_t(f), "function block name read back: format");
        vp_eq(v->function_block(), fb, "function block name read back: function block");
        text_string(v->payload(), n, "function block name read back: text");
    }
}
static void flex_text_n(unsigned from, unsigned to, packet_format f)
{
    any_text(12, false);
    const uint8_t g = u8("group"), b = u8("bank"), s = u8("status");
    const auto    a = packet_address(vp_sym("address", 2, 2));
    const uint8_t c = a == packet_address::channel ? u4("channel") : 0;
    for (unsigned n = from; n <= to; ++n)
    {
        const auto m = make_flex_data_text_message(g, f, a, c, b, s, std::string_view(text, n));
        vp_eq(m.data[0], dhead(g, unsigned(f), unsigned(a), c, b, s), "flex text header");
        text_bytes(m, 4, n, "flex text bytes are carried unchanged");
        text_string(m.payload_as_string(), n, "flex text read back");
        const auto v = as_flex_data_message_view(m);
        text_string(v->payload_as_string(), n, "flex text read back through the view");
    }
}
VPE(flex_text)
{
    flex_text_n(0, 12, ubool("end") ? packet_format::end : packet_format::complete);
}
VPE(flex_text_full)
{
    flex_text_n(12, 12, any_format());
}
