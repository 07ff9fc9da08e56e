// P25: omitted arguments of message factories are the documented defaults
#include "ci.h"
#include "packet.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex_collector.h>
#include <midi/universal_sysex.h>
using namespace midi;
using namespace midi::ci;

namespace {
template<typename A, typename B>
void same(const A& a, const B& b, const char* rule)
{
    vp_eq(a.manufacturerID, b.manufacturerID, rule);
    vp_eq(a.data.size(), b.data.size(), rule);
    for (size_t i = 0; i < a.data.size(); ++i)
        vp_eq(a.data[i], b.data[i], rule);
}
struct args
{
    uint32_t   src, dst;
    uint8_t    a, b, c, d;
    profile_id p;
    identity_t id;
    args()
      : src(uint32_t(vp_sym("src", 28, 8)))
      , dst(uint32_t(vp_sym("dst", 28, 8)))
      , a(u7("a")), b(u7("b")), c(u7("c")), d(u7("d"))
      , p{ u7("p"), u7("p"), u7("p"), u7("p"), u7("p") }
    {
        id.manufacturer = uint32_t(u7("m")) << 16;
        id.family       = u14("family");
        id.model        = u14("model");
        id.revision     = uint32_t(vp_sym("revision", 28, 8));
    }
};
} // namespace

VPE(management)
{
    const args x;
    same(make_discovery_inquiry(x.src, x.id, x.a, x.b), make_discovery_inquiry(x.src, x.id, x.a, x.b, 0), "discovery inquiry: default output path 0");
    same(make_discovery_reply(x.src, x.dst, x.id, x.a, x.b, x.c), make_discovery_reply(x.src, x.dst, x.id, x.a, x.b, x.c, 0x7F), "discovery reply: default function block 7Fh");
    same(message(0x22, x.src, x.dst), message(0x22, x.src, x.dst, 0x7F), "message: default device id 7Fh");
    same(message::make_with_payload_size(20, 0x22, x.src, x.dst), message::make_with_payload_size(20, 0x22, x.src, x.dst, 0x7F), "message: default device id 7Fh");
    same(make_process_inquiry_capabilities_inquiry(x.src, x.dst), make_process_inquiry_capabilities_inquiry(x.src, x.dst, 0x7F), "process inquiry: default device id 7Fh");
    same(make_process_inquiry_capabilities_reply(x.src, x.dst, x.a), make_process_inquiry_capabilities_reply(x.src, x.dst, x.a, 0x7F), "process inquiry reply: default device id 7Fh");
    same(make_midi_message_report_inquiry(x.src, x.dst, x.a, x.b, x.c, x.d), make_midi_message_report_inquiry(x.src, x.dst, x.a, x.b, x.c, x.d, 0x7F), "report inquiry: default device id 7Fh");
    same(make_midi_message_report_reply(x.src, x.a, x.b, x.c), make_midi_message_report_reply(x.src, x.a, x.b, x.c, 0x7F), "report reply: default device id 7Fh");
    same(make_midi_message_report_end(x.src), make_midi_message_report_end(x.src, 0x7F), "report end: default device id 7Fh");
}

VPE(profiles)
{
    const args       x;
    const profile_id l[2] = { x.p, x.p };
    const uint8_t    data[2] = { x.a, x.b };
    same(make_profile_inquiry_message(x.src, x.dst), make_profile_inquiry_message(x.src, x.dst, 0x7F), "profile inquiry: default device id 7Fh");
    same(make_profile_inquiry_reply(x.src, x.dst, l, 1, l, 2), make_profile_inquiry_reply(x.src, x.dst, l, 1, l, 2, 0x7F), "profile inquiry reply: default device id 7Fh");
    const std::vector<profile_id> one(1, x.p), none;
    same(make_profile_inquiry_reply(x.src, x.dst, one, none), make_profile_inquiry_reply(x.src, x.dst, one, none, 0x7F), "profile inquiry reply: default device id 7Fh");
    same(make_profile_added_notification(x.src, x.dst, x.p), make_profile_added_notification(x.src, x.dst, x.p, 0x7F), "profile added: default device id 7Fh");
    same(make_profile_removed_notification(x.src, x.dst, x.p), make_profile_removed_notification(x.src, x.dst, x.p, 0x7F), "profile removed: default device id 7Fh");
    same(make_profile_details_inquiry(x.src, x.dst, x.p, x.a), make_profile_details_inquiry(x.src, x.dst, x.p, x.a, 0x7F), "profile details: default device id 7Fh");
    same(make_profile_details_reply(x.src, x.dst, x.p, x.a, data, 2), make_profile_details_reply(x.src, x.dst, x.p, x.a, data, 2, 0x7F), "profile details reply: default device id 7Fh");
    same(make_profile_specific_data_message(x.src, x.dst, x.p, data, 2), make_profile_specific_data_message(x.src, x.dst, x.p, data, 2, 0x7F), "profile specific data: default device id 7Fh");
    const std::vector<uint7_t> v(data, data + 2);
    same(make_profile_specific_data_message(x.src, x.dst, x.p, v), make_profile_specific_data_message(x.src, x.dst, x.p, v, 0x7F), "profile specific data: default device id 7Fh");
}

VPE(property_exchange_get)
{
    const args x;
    const property_exchange::header_options opt{ { "limit", "10" } };
    const property_exchange::chunk  ch{ std::string_view{ "body" } };
    const property_exchange::header hd{ std::string_view{ "{}" } };
    same(make_property_exchange_capabilities_inquiry(x.src, x.dst), make_property_exchange_capabilities_inquiry(x.src, x.dst, 1, 0x7F), "capabilities inquiry: one request, device id 7Fh");
    same(make_property_exchange_capabilities_inquiry(x.src, x.dst, x.a), make_property_exchange_capabilities_inquiry(x.src, x.dst, x.a, 0x7F), "capabilities inquiry: device id 7Fh");
    same(make_property_exchange_capabilities_reply(x.src, x.dst), make_property_exchange_capabilities_reply(x.src, x.dst, 1, 0x7F), "capabilities reply: one request, device id 7Fh");
    same(make_property_exchange_capabilities_reply(x.src, x.dst, x.a), make_property_exchange_capabilities_reply(x.src, x.dst, x.a, 0x7F), "capabilities reply: device id 7Fh");
    same(make_get_property_data_inquiry(x.src, x.dst, "State"), make_get_property_data_inquiry(x.src, x.dst, "State", 0, 0x7F), "get property: request 0, device id 7Fh");
    same(make_get_property_data_inquiry(x.src, x.dst, "State", x.a), make_get_property_data_inquiry(x.src, x.dst, "State", x.a, 0x7F), "get property: device id 7Fh");
    same(make_get_property_data_inquiry(x.src, x.dst, "State", opt), make_get_property_data_inquiry(x.src, x.dst, "State", opt, 0, 0x7F), "get property: request 0, device id 7Fh");
    same(make_get_property_data_inquiry(x.src, x.dst, "State", opt, x.a), make_get_property_data_inquiry(x.src, x.dst, "State", opt, x.a, 0x7F), "get property: device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, hd, 2, 1, ch), make_get_property_data_reply(x.src, x.dst, hd, 2, 1, ch, 0, 0x7F), "get property reply: request 0, device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, hd, 2, 1, ch, x.a), make_get_property_data_reply(x.src, x.dst, hd, 2, 1, ch, x.a, 0x7F), "get property reply: device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 200, 2, 1, ch), make_get_property_data_reply(x.src, x.dst, 200, 2, 1, ch, 0, 0x7F), "get property reply: request 0, device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 200, 2, 1, ch, x.a), make_get_property_data_reply(x.src, x.dst, 200, 2, 1, ch, x.a, 0x7F), "get property reply: device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 200, "ok", 2, 1, ch), make_get_property_data_reply(x.src, x.dst, 200, "ok", 2, 1, ch, 0, 0x7F), "get property reply: request 0, device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 200, "ok", 2, 1, ch, x.a), make_get_property_data_reply(x.src, x.dst, 200, "ok", 2, 1, ch, x.a, 0x7F), "get property reply: device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 2, 1, ch), make_get_property_data_reply(x.src, x.dst, 2, 1, ch, 0, 0x7F), "get property reply: request 0, device id 7Fh");
    same(make_get_property_data_reply(x.src, x.dst, 2, 1, ch, x.a), make_get_property_data_reply(x.src, x.dst, 2, 1, ch, x.a, 0x7F), "get property reply: device id 7Fh");
}

VPE(property_exchange_set)
{
    const args x;
    const property_exchange::header_options opt{ { "limit", "10" } };
    const property_exchange::chunk  ch{ std::string_view{ "body" } };
    same(make_set_property_data_inquiry(x.src, x.dst, "State", 2, 1, ch), make_set_property_data_inquiry(x.src, x.dst, "State", 2, 1, ch, 0, 0x7F), "set property: request 0, device id 7Fh");
    same(make_set_property_data_inquiry(x.src, x.dst, "State", 2, 1, ch, x.a), make_set_property_data_inquiry(x.src, x.dst, "State", 2, 1, ch, x.a, 0x7F), "set property: device id 7Fh");
    same(make_set_property_data_inquiry(x.src, x.dst, "State", opt, 2, 1, ch), make_set_property_data_inquiry(x.src, x.dst, "State", opt, 2, 1, ch, 0, 0x7F), "set property: request 0, device id 7Fh");
    same(make_set_property_data_inquiry(x.src, x.dst, "State", opt, 2, 1, ch, x.a), make_set_property_data_inquiry(x.src, x.dst, "State", opt, 2, 1, ch, x.a, 0x7F), "set property: device id 7Fh");
    same(make_set_property_data_inquiry(x.src, x.dst, 2, 1, ch), make_set_property_data_inquiry(x.src, x.dst, 2, 1, ch, 0, 0x7F), "set property: request 0, device id 7Fh");
    same(make_set_property_data_inquiry(x.src, x.dst, 2, 1, ch, x.a), make_set_property_data_inquiry(x.src, x.dst, 2, 1, ch, x.a, 0x7F), "set property: device id 7Fh");
    same(make_set_property_data_reply(x.src, x.dst, 200), make_set_property_data_reply(x.src, x.dst, 200, 0, 0x7F), "set property reply: request 0, device id 7Fh");
    same(make_set_property_data_reply(x.src, x.dst, 200, x.a), make_set_property_data_reply(x.src, x.dst, 200, x.a, 0x7F), "set property reply: device id 7Fh");
    same(make_set_property_data_reply(x.src, x.dst, 200, "ok"), make_set_property_data_reply(x.src, x.dst, 200, "ok", 0, 0x7F), "set property reply: request 0, device id 7Fh");
    same(make_set_property_data_reply(x.src, x.dst, 200, "ok", x.a), make_set_property_data_reply(x.src, x.dst, 200, "ok", x.a, 0x7F), "set property reply: device id 7Fh");
}

VPE(property_exchange_subscribe)
{
    const args x;
    const property_exchange::chunk ch{ std::string_view{ "body" } };
    same(make_subscription_inquiry(x.src, x.dst, "State", "start", "s"), make_subscription_inquiry(x.src, x.dst, "State", "start", "s", 0, 0x7F), "subscription: request 0, device id 7Fh");
    same(make_subscription_inquiry(x.src, x.dst, "State", "start", "s", x.a), make_subscription_inquiry(x.src, x.dst, "State", "start", "s", x.a, 0x7F), "subscription: device id 7Fh");
    same(make_subscription_inquiry(x.src, x.dst, "State", "full", "s", 2, 1, ch), make_subscription_inquiry(x.src, x.dst, "State", "full", "s", 2, 1, ch, 0, 0x7F), "subscription: request 0, device id 7Fh");
    same(make_subscription_inquiry(x.src, x.dst, "State", "full", "s", 2, 1, ch, x.a), make_subscription_inquiry(x.src, x.dst, "State", "full", "s", 2, 1, ch, x.a, 0x7F), "subscription: device id 7Fh");
    same(make_subscription_inquiry(x.src, x.dst, 2, 1, ch), make_subscription_inquiry(x.src, x.dst, 2, 1, ch, 0, 0x7F), "subscription: request 0, device id 7Fh");
    same(make_subscription_inquiry(x.src, x.dst, 2, 1, ch, x.a), make_subscription_inquiry(x.src, x.dst, 2, 1, ch, x.a, 0x7F), "subscription: device id 7Fh");
    same(make_subscription_reply(x.src, x.dst, 200), make_subscription_reply(x.src, x.dst, 200, 0, 0x7F), "subscription reply: request 0, device id 7Fh");
    same(make_subscription_reply(x.src, x.dst, 200, x.a), make_subscription_reply(x.src, x.dst, 200, x.a, 0x7F), "subscription reply: device id 7Fh");
    same(make_subscription_reply(x.src, x.dst, 200, "ok"), make_subscription_reply(x.src, x.dst, 200, "ok", 0, 0x7F), "subscription reply: request 0, device id 7Fh");
    same(make_subscription_reply(x.src, x.dst, 200, "ok", x.a), make_subscription_reply(x.src, x.dst, 200, "ok", x.a, 0x7F), "subscription reply: device id 7Fh");
    same(make_notify_message(x.src, x.dst, 144), make_notify_message(x.src, x.dst, 144, 0, 0x7F), "notify: request 0, device id 7Fh");
    same(make_notify_message(x.src, x.dst, 144, x.a), make_notify_message(x.src, x.dst, 144, x.a, 0x7F), "notify: device id 7Fh");
    same(make_notify_message(x.src, x.dst, 144, "bye"), make_notify_message(x.src, x.dst, 144, "bye", 0, 0x7F), "notify: request 0, device id 7Fh");
    same(make_notify_message(x.src, x.dst, 144, "bye", x.a), make_notify_message(x.src, x.dst, 144, "bye", x.a, 0x7F), "notify: device id 7Fh");
}

VPE(identity)
{
    using namespace universal_sysex;
    const args x;
    same(identity_request(), identity_request(0x7F), "identity request: default device id 7Fh");
    same(make_identity_request(), make_identity_request(0x7F), "identity request: default device id 7Fh");
    same(make_identity_reply(x.id.manufacturer, x.id.family, x.id.model, x.id.revision), make_identity_reply(x.id.manufacturer, x.id.family, x.id.model, x.id.revision, 0x7F), "identity reply: default device id 7Fh");
    same(identity_reply(x.id.manufacturer, x.id.family, x.id.model, x.id.revision), identity_reply(x.id.manufacturer, x.id.family, x.id.model, x.id.revision, 0x7F), "identity reply: default device id 7Fh");
    sysex7 s;
    vp_eq(s.manufacturerID, 0, "a default sysex has no manufacturer");
    vp_eq(s.data.size(), 0, "a default sysex is empty");
    profile_id p;
    vp_check(p.byte1 == 0x7E && p.byte2 == 0 && p.byte3 == 0 && p.byte4 == 0 && p.byte5 == 0, "a default profile id is a standard defined one");
}

VPE(parser)
{
    unsigned n = 0;
    universal_packet last;
    const uint8_t note = u7("note"), vel = u7("vel");
    midi1_byte_stream_parser p([&](universal_packet x) { ++n; last = x; });
    p.feed(0x92);
    p.feed(note);
    p.feed(vel);
    vp_eq(n, 1, "a parser invokes its callbacks and uses group 0 unless told otherwise");
    vp_eq(last.data[0], 0x20920000u | uint32_t(note) << 8 | vel, "a parser invokes its callbacks and uses group 0 unless told otherwise");
}

VPE(packet_defaults)
{
    const uint8_t g = u4("g"), c = u4("c"), n = u7("n"), d = u7("d"), st = u8("st"), id = u8("id");
    same_words(make_sysex7_complete_packet(), make_sysex7_complete_packet(0), "sysex7 complete: default group 0");
    same_words(make_sysex7_start_packet(), make_sysex7_start_packet(0), "sysex7 start: default group 0");
    same_words(make_sysex7_continue_packet(), make_sysex7_continue_packet(0), "sysex7 continue: default group 0");
    same_words(make_sysex7_end_packet(), make_sysex7_end_packet(0), "sysex7 end: default group 0");
    same_words(make_sysex8_complete_packet(id), make_sysex8_complete_packet(id, 0), "sysex8 complete: default group 0");
    same_words(make_sysex8_start_packet(id), make_sysex8_start_packet(id, 0), "sysex8 start: default group 0");
    same_words(make_sysex8_continue_packet(id), make_sysex8_continue_packet(id, 0), "sysex8 continue: default group 0");
    same_words(make_sysex8_end_packet(id), make_sysex8_end_packet(id, 0), "sysex8 end: default group 0");

    same_words(flex_data_message(), flex_data_message(group_t(0)), "flex data: default group 0");
    same_words(flex_data_message(g, packet_format::complete, packet_address::group, c, 0, st),
               flex_data_message(g, packet_format::complete, packet_address::group, c, 0, st, 0, 0, 0), "flex data: default data 0");
    same_words(make_flex_data_message(g, packet_format::complete, packet_address::group, c, 0, st),
               make_flex_data_message(g, packet_format::complete, packet_address::group, c, 0, st, 0, 0, 0), "flex data: default data 0");

    const uint8_t cs = uint8_t(0x80 | d);
    same_words(midi1_channel_voice_message(g, cs), midi1_channel_voice_message(g, cs, 0, 0), "midi 1 channel voice: default data 0");
    same_words(midi1_channel_voice_message(g, cs, n), midi1_channel_voice_message(g, cs, n, 0), "midi 1 channel voice: default data 0");
    same_words(make_midi1_channel_voice_message(g, 0xC0, c, n), make_midi1_channel_voice_message(g, 0xC0, c, n, 0), "midi 1 channel voice: default data 0");
    const velocity v(uint16_t(u16("v")));
    same_words(make_midi2_note_off_message(g, c, n, v), make_midi2_note_off_message(g, c, n, v, 0, 0), "midi 2 note off: default is no attribute");
    same_words(make_midi2_note_on_message(g, c, n, v), make_midi2_note_on_message(g, c, n, v, uint8_t(0), uint16_t(0)), "midi 2 note on: default is no attribute");

    same_words(system_message(g, 0xF1), system_message(g, 0xF1, 0, 0), "system message: default data 0");
    same_words(system_message(g, 0xF1, n), system_message(g, 0xF1, n, 0), "system message: default data 0");
    same_words(make_system_message(g, 0xF1), make_system_message(g, 0xF1, 0, 0), "system message: default data 0");
    same_words(make_system_message(g, 0xF1, n), make_system_message(g, 0xF1, n, 0), "system message: default data 0");
    same_words(utility_message(0x10), utility_message(0x10, 0), "utility message: default payload 0");

    same_words(stream_message(st), stream_message(st, packet_format::complete), "stream message: complete by default");
    same_words(make_endpoint_discovery_message(id), make_endpoint_discovery_message(id, 1, 1), "endpoint discovery: UMP version 1.1");
    same_words(make_endpoint_discovery_message(id, n), make_endpoint_discovery_message(id, n, 1), "endpoint discovery: UMP version 1.1");
    same_words(make_endpoint_info_message(n, true, 3, 1), make_endpoint_info_message(n, true, 3, 1, 1, 1), "endpoint info: UMP version 1.1");
    same_words(make_endpoint_info_message(n, true, 3, 1, d), make_endpoint_info_message(n, true, 3, 1, d, 1), "endpoint info: UMP version 1.1");
    same_words(make_stream_configuration_request(id), make_stream_configuration_request(id, 0), "stream configuration: no extensions by default");
    same_words(make_stream_configuration_notification(id), make_stream_configuration_notification(id, 0), "stream configuration: no extensions by default");
    const uint8_t dir = uint8_t(1 + vp_sym("dir", 1, 8));
    same_words(make_function_block_info_message(n, dir, g), make_function_block_info_message(n, dir, g, 1), "function block: spans one group by default");
    const function_block_options o;
    same_words(make_function_block_info_message(n, o, g), make_function_block_info_message(n, o, g, 1), "function block: spans one group by default");
}

VPE(as_packets_defaults)
{
    const uint8_t id = u8("id");
    sysex7 s(0x21, std::vector<uint7_t>{ u7("a"), u7("b"), u7("c") });
    const auto a = as_sysex7_packets(s), b = as_sysex7_packets(s, 0);
    vp_eq(a.size(), b.size(), "as_sysex7_packets: default group 0");
    for (size_t i = 0; i < a.size(); ++i)
        same_words(a[i], b[i], "as_sysex7_packets: default group 0");
    sysex8 t(0x21, std::vector<uint8_t>{ u8("x"), u8("y") });
    const auto e = as_sysex8_packets(t, id), f = as_sysex8_packets(t, id, 0);
    vp_eq(e.size(), f.size(), "as_sysex8_packets: default group 0");
    for (size_t i = 0; i < e.size(); ++i)
        same_words(e[i], f[i], "as_sysex8_packets: default group 0");
}
