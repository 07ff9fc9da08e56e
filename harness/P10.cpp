// P10: received Capability Inquiry / universal sysex messages of any size and content
#include "ci.h"
using namespace midi;
using namespace midi::ci;

namespace {
void header(const received& r, const capability_inquiry_view& v)
{
    vp_eq(v.device_id(), r.b[0], "device id");
    vp_eq(v.subtype(), r.b[2], "subtype");
    vp_eq(v.message_version(), r.b[3], "message version");
    vp_eq(v.source_muid(), r.u28(4), "source muid");
    vp_eq(v.destination_muid(), r.u28(8), "destination muid");
}
void profile(const received& r, const profile_id& p, unsigned at)
{
    vp_eq(p.byte1, r.b[at], "profile id");
    vp_eq(p.byte2, r.b[at + 1], "profile id");
    vp_eq(p.byte3, r.b[at + 2], "profile id");
    vp_eq(p.byte4, r.b[at + 3], "profile id");
    vp_eq(p.byte5, r.b[at + 4], "profile id");
}
} // namespace

VPE(classify)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          const bool     uni = (r.id == 0x7E0000 || r.id == 0x7F0000) && n >= 2;
          vp_eq(is_universal_sysex_message(r.m), uni, "is_universal_sysex_message iff universal id and at least two bytes");
          vp_eq(as_universal_sysex_view(r.m).has_value(), uni, "as_universal_sysex_view iff universal sysex");
          vp_eq(universal_sysex_type_of(r.m), uni ? (r.id >> 8 | r.b[1]) & 0xFFFF : 0, "universal sysex type");
          vp_eq(universal_sysex_subtype_of(r.m), uni && n > 2 ? r.b[2] : 0, "universal sysex subtype");
          vp_eq(universal_sysex_device_id_of(r.m), uni ? r.b[0] : 0xFF, "universal sysex device id");
          if (uni)
          {
              const auto v = as_universal_sysex_view(r.m);
              vp_eq(v->device_id(), r.b[0], "view: device id");
              vp_eq(v->type(), (r.id >> 8 | r.b[1]) & 0xFFFF, "view: type");
              vp_eq(v->subtype(), n > 2 ? r.b[2] : 0, "view: subtype");
              vp_eq(v->data_size(), n, "view: data size");
              vp_eq(v->as<capability_inquiry_view>().has_value(), r.ci(12), "view converted to a capability inquiry view iff it is one");
              vp_eq(v->as<universal_sysex::identity_reply_view>().has_value(), universal_sysex::identity_reply_view::validate(r.m), "view converted to an identity reply view iff it is one");
              if (r.ci(12))
                  header(r, capability_inquiry_view{ *v });
          }
          const universal_sysex::message mm{ r.id, r.b, n };
          vp_eq(mm.device_id(), n ? r.b[0] : 0xFF, "message: device id");
          vp_eq(mm.subtype(), n > 2 ? r.b[2] : 0, "message: subtype");
          vp_eq(mm.type(), n < 2 ? 0 : (r.id >> 8 | r.b[1]) & 0xFFFF, "message: type");

          const bool info = r.id == 0x7E0000 && n >= 3 && r.b[1] == 6;
          vp_eq(universal_sysex::is_identity_request(r.m), info && r.b[2] == 1, "is_identity_request");
          const bool cim = r.ci(12);
          vp_eq(is_capability_inquiry_message(r.m), cim, "is_capability_inquiry_message iff universal non realtime, 0Dh and a whole header");
          vp_eq(as_capability_inquiry_view(r.m).has_value(), cim, "as_capability_inquiry_view iff capability inquiry message");
          vp_eq(ci::as<capability_inquiry_view>(r.m).has_value(), cim, "as<capability_inquiry_view> iff capability inquiry message");
          if (const auto v = as_capability_inquiry_view(r.m))
          {
              header(r, *v);
              vp_eq(ci::as<invalidate_muid_view>(*v).has_value(), n >= 16 && r.b[2] == 0x7E, "as<> of a capability inquiry view iff the message is of that kind");
              vp_eq(ci::as<profile_inquiry_view>(*v).has_value(), r.b[2] == 0x20, "as<> of a capability inquiry view iff the message is of that kind");
              if (const auto k = ci::as<invalidate_muid_view>(*v))
                  vp_eq(k->target_muid(), r.u28(12), "as<> of a capability inquiry view reads the message");
          }
      },
      0, 20);
}

VPE(identity_reply)
{
    using namespace universal_sysex;
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          const bool     reply = r.id == 0x7E0000 && n >= 3 && r.b[1] == 6 && r.b[2] == 2 && ((n == 12 && r.b[3] != 0) || n == 14);
          vp_eq(is_identity_reply(r.m), reply, "is_identity_reply iff identity reply with a whole identity");
          const auto v = as_identity_reply_view(r.m);
          vp_eq(v.has_value(), reply, "as_identity_reply_view iff identity reply");
          if (v)
          {
              const auto i = v->identity();
              const bool one = r.b[3] != 0;
              const unsigned o = one ? 4 : 6;
              vp_eq(i.manufacturer, one ? uint32_t(r.b[3]) << 16 : uint32_t(r.b[4]) << 8 | r.b[5], "identity reply: manufacturer");
              vp_eq(i.family, r.u14(o), "identity reply: family");
              vp_eq(i.model, r.u14(o + 2), "identity reply: model");
              vp_eq(i.revision, r.u28(o + 4), "identity reply: revision");
          }
      },
      0, 18);
}

VPE(discovery)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          for (int reply = 0; reply < 2; ++reply)
          {
              const bool ok = r.ci(28) && r.b[2] == 0x70 + reply && (r.b[3] < 2 || n >= 29u + reply);
              if (reply)
                  vp_eq(discovery_reply_view::validate(r.m), ok, "discovery reply accepted iff complete for its version");
              else
                  vp_eq(discovery_inquiry_view::validate(r.m), ok, "discovery inquiry accepted iff complete for its version");
          }
          const auto check = [&](const discovery::message_view& v) {
              header(r, v);
              const auto i = v.identity();
              vp_eq(i.manufacturer, uint32_t(r.b[12]) << 16 | uint32_t(r.b[13]) << 8 | r.b[14], "discovery: manufacturer");
              vp_eq(i.family, r.u14(15), "discovery: family");
              vp_eq(i.model, r.u14(17), "discovery: model");
              vp_eq(i.revision, r.u28(19), "discovery: revision");
              vp_eq(v.categories(), r.b[23], "discovery: categories");
              vp_eq(v.maximum_message_size(), r.u28(24), "discovery: maximum message size");
              vp_eq(v.output_path_id(), r.b[3] >= 2 ? r.b[28] : 0, "discovery: output path id from version 2 on");
          };
          if (const auto v = ci::as<discovery_inquiry_view>(r.m))
              check(*v);
          if (const auto v = ci::as<discovery_reply_view>(r.m))
          {
              check(*v);
              vp_eq(v->function_block(), r.b[3] >= 2 ? r.b[29] : 0x7F, "discovery reply: function block from version 2 on");
          }
      },
      0, 33);
}

VPE(endpoint_information)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          vp_eq(endpoint_information_inquiry_view::validate(r.m), r.ci(13) && r.b[2] == 0x72, "endpoint information inquiry accepted iff complete");
          if (const auto v = ci::as<endpoint_information_inquiry_view>(r.m))
          {
              header(r, *v);
              vp_eq(v->status(), r.b[12], "endpoint information inquiry: status");
          }
          vp_eq(endpoint_information_reply_view::validate(r.m), r.ci(15) && r.b[2] == 0x73 && n >= 15 + r.u14(13), "endpoint information reply accepted iff complete");
          if (const auto v = ci::as<endpoint_information_reply_view>(r.m))
          {
              header(r, *v);
              vp_eq(v->status(), r.b[12], "endpoint information reply: status");
              vp_eq(v->information_data_length(), r.u14(13), "endpoint information reply: length");
              vp_eq(r.off(v->information_data()), 15, "endpoint information reply: data");
              vp_check(r.off(v->information_data()) + v->information_data_length() <= n, "endpoint information reply: data lies inside the message");
          }
      },
      0, 24);
}

VPE(ack_nak)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          const bool     body = r.ci(22) && n >= 22 + r.u14(20);
          vp_eq(ack_view::validate(r.m), body && r.b[2] == 0x7D, "ack accepted iff complete");
          vp_eq(nak_view::validate(r.m), body && r.b[2] == 0x7F && r.b[3] >= 2, "nak accepted iff complete and version 2");
          const auto check = [&](const nack::view& v) {
              header(r, v);
              vp_eq(v.transaction(), r.b[12], "ack/nak: transaction");
              vp_eq(v.status_code(), r.b[13], "ack/nak: status code");
              vp_eq(v.status_data(), r.b[14], "ack/nak: status data");
              vp_eq(r.off(v.details()), 15, "ack/nak: details");
              vp_eq(v.message_length(), r.u14(20), "ack/nak: message length");
              vp_eq(r.off(v.message_data()), 22, "ack/nak: message data");
              const auto s = v.message();
              vp_eq(s.size(), r.u14(20), "ack/nak: message text length");
              vp_check(r.off(reinterpret_cast<const uint8_t*>(s.data())) + s.size() <= n, "ack/nak: text lies inside the message");
          };
          if (const auto v = ci::as<ack_view>(r.m))
              check(*v);
          if (const auto v = ci::as<nak_view>(r.m))
              check(*v);
      },
      0, 28);
}

VPE(invalidate_muid)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          vp_eq(invalidate_muid_view::validate(r.m), r.ci(16) && r.b[2] == 0x7E, "invalidate muid accepted iff complete");
          if (const auto v = ci::as<invalidate_muid_view>(r.m))
          {
              header(r, *v);
              vp_eq(v->target_muid(), r.u28(12), "invalidate muid: target");
          }
      },
      0, 20);
}

VPE(profiles)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          vp_eq(profile_inquiry_view::validate(r.m), r.ci(12) && r.b[2] == 0x20, "profile inquiry accepted iff complete");
          vp_eq(profile_id_view::validate(r.m), r.ci(17) && r.b[2] >= 0x22 && r.b[2] <= 0x27, "profile message accepted iff complete");
          if (const auto v = ci::as<profile_id_view>(r.m))
          {
              header(r, *v);
              profile(r, v->profile(), 12);
          }
          vp_eq(profile_destination_view::validate(r.m), r.ci(19) && r.b[2] >= 0x22 && r.b[2] <= 0x25, "profile on/off/enabled/disabled accepted iff complete");
          if (const auto v = ci::as<profile_destination_view>(r.m))
          {
              header(r, *v);
              profile(r, v->profile(), 12);
              vp_eq(v->num_channels(), r.u14(17), "profile message: number of channels");
              vp_eq(v->params().num_channels, r.u14(17), "profile message: number of channels");
              vp_eq(v->params().scope, r.b[0], "profile message: scope");
          }
          vp_eq(profile_details_inquiry_view::validate(r.m), r.ci(18) && r.b[2] == 0x28, "profile details inquiry accepted iff complete");
          if (const auto v = ci::as<profile_details_inquiry_view>(r.m))
          {
              profile(r, v->profile(), 12);
              vp_eq(v->target(), r.b[17], "profile details inquiry: target");
          }
      },
      0, 22);
}

VPE(profile_data)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          vp_eq(profile_details_reply_view::validate(r.m), r.ci(20) && r.b[2] == 0x29 && n >= 20 + r.u14(18), "profile details reply accepted iff complete");
          if (const auto v = ci::as<profile_details_reply_view>(r.m))
          {
              profile(r, v->profile(), 12);
              vp_eq(v->target(), r.b[17], "profile details reply: target");
              vp_eq(v->target_data_length(), r.u14(18), "profile details reply: length");
              vp_eq(r.off(v->target_data()), 20, "profile details reply: data");
              vp_check(r.off(v->target_data()) + v->target_data_length() <= n, "profile details reply: data lies inside the message");
          }
          vp_eq(profile_specific_data_view::validate(r.m), r.ci(21) && r.b[2] == 0x2F && n >= 21ull + r.u28(17), "profile specific data accepted iff complete");
          if (const auto v = ci::as<profile_specific_data_view>(r.m))
          {
              profile(r, v->profile(), 12);
              vp_eq(v->data_size(), r.u28(17), "profile specific data: size");
              vp_eq(r.off(v->data_begin()), 21, "profile specific data: begin");
              vp_eq(r.off(v->data_end()), 21ull + r.u28(17), "profile specific data: end");
              vp_check(r.off(v->data_end()) <= n, "profile specific data: data lies inside the message");
          }
      },
      0, 26);
}

// profile inquiry reply: two counted lists of 5 byte ids
VPE(profile_inquiry_reply)
{
    for_sizes(
      [](unsigned n) {
          const unsigned fit = n < 16 ? 0 : (n - 16) / 5; // enabled profiles that fit
          for (unsigned e = 0; e <= fit; ++e)
          {
              uint8_t b[40];
              for (unsigned i = 0; i < n; ++i)
                  b[i] = u8("b", i < 4 ? 1 : 4 + i);
              if (n > 13)
              {
                  b[12] = e;
                  b[13] = 0;
              }
              const uint32_t id = u32("id", 0);
              const sysex7   m{ id, b, n };
              const bool     ok = n >= 16 && id == 0x7E0000 && b[1] == 0x0D && b[2] == 0x21 && n >= 16 + 5 * e + 5 * (b[14 + 5 * e] | uint32_t(b[15 + 5 * e]) << 7);
              vp_eq(profile_inquiry_reply_view::validate(m), ok, "profile inquiry reply accepted iff both lists are complete");
          }
      },
      0, 34);
}
VPE(profile_inquiry_reply_overlong)
{
    const uint8_t lo = u8("lo", 2), hi = u8("hi", 2);
    const uint32_t e = lo | uint32_t(hi) << 7;
    vp_assume(e > 4);
    for_sizes(
      [&](unsigned n) {
          uint8_t b[40];
          for (unsigned i = 0; i < n; ++i)
              b[i] = u8("b", 10);
          b[1]  = 0x0D;
          b[2]  = 0x21;
          b[12] = lo;
          b[13] = hi;
          const sysex7 m{ 0x7E0000, b, n };
          vp_eq(profile_inquiry_reply_view::validate(m), 0, "profile inquiry reply announcing more profiles than it has is rejected");
      },
      16, 36);
}
VPE(profile_inquiry_reply_lists)
{
    // every accepted message of these sizes, with its numbers of enabled (e) and disabled (d) profiles
    for_sizes(
      [](unsigned n) {
          for (unsigned e = 0; 16 + 5 * e <= n; ++e)
              for (unsigned d = 0; 16 + 5 * (e + d) <= n; ++d)
              {
                  uint8_t b[40];
                  for (unsigned i = 0; i < n; ++i)
                      b[i] = u8("b", i);
                  b[1] = 0x0D;
                  b[2] = 0x21;
                  b[12] = e;
                  b[13] = 0;
                  b[14 + 5 * e] = d;
                  b[15 + 5 * e] = 0;
                  const sysex7 m{ 0x7E0000, b, n };
                  const auto   v = ci::as<profile_inquiry_reply_view>(m);
                  vp_eq(v.has_value(), 1, "complete lists are accepted");
                  vp_eq(v->has_enabled_profiles(), e != 0, "has_enabled_profiles");
                  vp_eq(v->has_disabled_profiles(), d != 0, "has_disabled_profiles");
                  vp_eq(v->num_enabled_profiles(), e, "num_enabled_profiles");
                  vp_eq(v->num_disabled_profiles(), d, "num_disabled_profiles");
                  const auto le = v->enabled_profiles();
                  const auto ld = v->disabled_profiles();
                  vp_eq(le.size(), e, "enabled_profiles lists all");
                  vp_eq(ld.size(), d, "disabled_profiles lists all");
                  for (unsigned k = 0; k < e; ++k)
                      vp_check(le[k] == profile_id(b[14 + 5 * k], b[15 + 5 * k], b[16 + 5 * k], b[17 + 5 * k], b[18 + 5 * k]), "enabled_profiles in order");
                  for (unsigned k = 0; k < d; ++k)
                  {
                      const unsigned o = 16 + 5 * e + 5 * k;
                      vp_check(ld[k] == profile_id(b[o], b[o + 1], b[o + 2], b[o + 3], b[o + 4]), "disabled_profiles in order");
                  }
              }
      },
      16, 38);
}

// property data: counted header, chunk numbers, counted chunk
void property_fields(unsigned n, unsigned h)
{
    using property_exchange::property_data_message_view;
    received       r{ 0 };
    const uint32_t id = u32("id", 0);
    for (unsigned i = 0; i < n; ++i)
        r.b[i] = u8("b", i < 4 ? 1 : i == 16 + h || i == 18 + h ? 2 : i == 15 + h || i == 17 + h ? 3 : i == 19 + h || i == 20 + h ? 4 : 5 + i);
    if (n > 14)
    {
        r.b[13] = h;
        r.b[14] = 0;
    }
    r.id            = id;
    r.size          = n;
    r.m             = sysex7{ id, r.b, n };
    const bool kind = r.ci(21) && ((r.b[2] >= 0x34 && r.b[2] <= 0x39) || r.b[2] == 0x3F);
    const bool got  = property_data_message_view::validate(r.m);
    bool       ok   = false;
    if (n >= 21 + h)
    {
        const unsigned chunks = r.u14(15 + h), cur = r.u14(17 + h), c = r.u14(19 + h);
        ok = kind && !(chunks && cur > chunks) && !(h && cur > 1) && !(c && cur < 1) && 21 + h + c <= n;
    }
    vp_eq(got, ok, "property data accepted iff header and chunk are complete and consistently numbered");
    vp_eq(get_property_data_view::validate(r.m), ok && (r.b[2] == 0x34 || r.b[2] == 0x35), "get property data iff property data of that kind");
    vp_eq(set_property_data_view::validate(r.m), ok && (r.b[2] == 0x36 || r.b[2] == 0x37), "set property data iff property data of that kind");
    vp_eq(subscription_view::validate(r.m), ok && (r.b[2] == 0x38 || r.b[2] == 0x39), "subscription iff property data of that kind");
    vp_eq(notify_view::validate(r.m), ok && r.b[2] == 0x3F, "notify iff property data of that kind");
    if (got && ok)
    {
        const property_data_message_view v{ r.m };
        const unsigned chunks = r.u14(15 + h), cur = r.u14(17 + h), c = r.u14(19 + h);
        header(r, v);
        vp_eq(v.request_id(), r.b[12], "property data: request id");
        vp_eq(v.header_size(), h, "property data: header size");
        vp_eq(r.off(v.header_begin()), 15, "property data: header begin");
        vp_eq(r.off(v.header_end()), 15 + h, "property data: header end");
        vp_eq(v.number_of_chunks(), chunks, "property data: number of chunks");
        vp_eq(v.number_of_this_chunk(), cur, "property data: this chunk");
        vp_eq(v.chunk_size(), c, "property data: chunk size");
        vp_eq(r.off(v.chunk_begin()), 21 + h, "property data: chunk begin");
        vp_eq(r.off(v.chunk_end()), 21 + h + c, "property data: chunk end");
        vp_check(r.off(v.chunk_end()) <= n, "property data: chunk lies inside the message");
    }
}
VPE(property_data_short) { for_sizes([](unsigned n) { property_fields(n, 0); }, 0, 20); }
VPE(property_data_21) { for (unsigned h = 0; h < 3; ++h) property_fields(21, h); }
VPE(property_data_22) { for (unsigned h = 0; h < 3; ++h) property_fields(22, h); }
VPE(property_data_24) { for (unsigned h = 0; h < 5; ++h) property_fields(24, h); }
VPE(property_data_27) { for (unsigned h = 0; h < 8; ++h) property_fields(27, h); }
VPE(property_data_34) { for (unsigned h = 0; h < 15; ++h) property_fields(34, h); }
#if VP_THOROUGH
VPE(property_data_60) { for (unsigned h = 0; h < 40; ++h) property_fields(60, h); }
VPE(property_data_all) { for (unsigned n = 21; n < 34; ++n) for (unsigned h = 0; h + 20 < n; ++h) property_fields(n, h); }
#endif
VPE(property_data_overlong)
{
    const uint8_t lo = u8("lo", 2), hi = u8("hi", 2);
    vp_assume((lo | uint32_t(hi) << 7) > 15);
    for_sizes(
      [&](unsigned n) {
          received r{ n, 0x35 };
          r.b[13] = lo;
          r.b[14] = hi;
          r.m     = sysex7{ 0x7E0000, r.b, n };
          vp_eq(property_exchange::property_data_message_view::validate(r.m), 0, "property data with a truncated header is rejected");
      },
      21, 36);
}

VPE(capabilities)
{
    for_sizes(
      [](unsigned n) {
          const received r{ n };
          vp_eq(property_exchange_capabilities_view::validate(r.m), r.ci(13) && (r.b[2] == 0x30 || r.b[2] == 0x31) && (r.b[3] < 2 || n >= 15), "property exchange capabilities accepted iff complete for its version");
          if (const auto v = ci::as<property_exchange_capabilities_view>(r.m))
          {
              header(r, *v);
              vp_eq(v->maximum_number_of_requests(), r.b[12], "property exchange capabilities: requests");
              vp_eq(v->pe_version_major(), r.b[3] >= 2 ? r.b[13] : 0, "property exchange capabilities: major version");
              vp_eq(v->pe_version_minor(), r.b[3] >= 2 ? r.b[14] : 0, "property exchange capabilities: minor version");
          }
          vp_eq(process_inquiry_capabilities_reply_view::validate(r.m), r.ci(13) && r.b[2] == 0x41, "process inquiry capabilities accepted iff complete");
          if (const auto v = ci::as<process_inquiry_capabilities_reply_view>(r.m))
              vp_eq(v->supported_features(), r.b[12], "process inquiry capabilities: features");
          vp_eq(midi_message_report_inquiry_view::validate(r.m), r.ci(17) && r.b[2] == 0x42, "message report inquiry accepted iff complete");
          if (const auto v = ci::as<midi_message_report_inquiry_view>(r.m))
          {
              vp_eq(v->message_data_control(), r.b[12], "message report inquiry: data control");
              vp_eq(v->system_message_types(), r.b[13], "message report inquiry: system messages");
              vp_eq(v->channel_controller_message_types(), r.b[15], "message report inquiry: channel messages");
              vp_eq(v->note_data_message_types(), r.b[16], "message report inquiry: note messages");
          }
          vp_eq(midi_message_report_reply_view::validate(r.m), r.ci(16) && r.b[2] == 0x43, "message report reply accepted iff complete");
          if (const auto v = ci::as<midi_message_report_reply_view>(r.m))
          {
              vp_eq(v->system_message_types(), r.b[12], "message report reply: system messages");
              vp_eq(v->channel_controller_message_types(), r.b[14], "message report reply: channel messages");
              vp_eq(v->note_data_message_types(), r.b[15], "message report reply: note messages");
          }
      },
      0, 19);
}

// embedded lengths of all magnitudes: complete messages are accepted, messages one byte short are not
namespace {
struct made
{
    sysex7 m;
    explicit made(uint8_t subtype, unsigned size)
      : m{ 0x7E0000 }
    {
        m.data.resize(size);
        for (unsigned i = 0; i < 12; ++i)
            m.data[i] = i == 1 ? 0x0D : i == 2 ? subtype : i == 3 ? 2 : u7("b", 1);
        const uint8_t a = u7("a", 1), b = u7("c", 1);
        for (unsigned i = 12; i < size; ++i)
            m.data[i] = i & 1 ? a : b;
    }
    void u14(unsigned at, unsigned v)
    {
        m.data[at]     = v & 0x7F;
        m.data[at + 1] = (v >> 7) & 0x7F;
    }
    void u28(unsigned at, unsigned v)
    {
        u14(at, v & 0x3FFF);
        u14(at + 2, v >> 14);
    }
    size_t off(const uint8_t* p) const { return size_t(p - m.data.data()); }
};
constexpr unsigned lengths[] = { 127, 128, 129, 255, 256, 257, 512, 1024, 2048, 4095, 4096, 8192, 16256, 16383 };
} // namespace
VPE(long_nack)
{
    for (unsigned n : lengths)
        for (unsigned missing = 0; missing < 2; ++missing)
            for (uint8_t s : { 0x7D, 0x7F })
            {
                made x{ s, 22 + n - missing };
                x.u14(20, n);
                vp_eq(ci::as<ack_view>(x.m).has_value(), s == 0x7D && !missing, "long ack accepted iff complete");
                vp_eq(ci::as<nak_view>(x.m).has_value(), s == 0x7F && !missing, "long nak accepted iff complete");
                if (missing)
                    continue;
                const nack::view v{ x.m };
                vp_eq(v.message_length(), n, "long ack/nak: length");
                vp_eq(v.message().size(), n, "long ack/nak: text");
                vp_eq(x.off(v.message_data()), 22, "long ack/nak: text lies behind its length");
            }
}
VPE(long_information)
{
    for (unsigned n : lengths)
        for (unsigned missing = 0; missing < 2; ++missing)
        {
            {
                made x{ 0x73, 15 + n - missing };
                x.u14(13, n);
                const auto v = ci::as<endpoint_information_reply_view>(x.m);
                vp_eq(v.has_value(), !missing, "long endpoint information accepted iff complete");
                if (v)
                {
                    vp_eq(v->information_data_length(), n, "long endpoint information: length");
                    vp_eq(x.off(v->information_data()), 15, "long endpoint information: data");
                }
            }
            {
                made x{ 0x29, 20 + n - missing };
                x.u14(18, n);
                const auto v = ci::as<profile_details_reply_view>(x.m);
                vp_eq(v.has_value(), !missing, "long profile details accepted iff complete");
                if (v)
                {
                    vp_eq(v->target_data_length(), n, "long profile details: length");
                    vp_eq(x.off(v->target_data()), 20, "long profile details: data");
                }
            }
        }
}
VPE(long_profile_data)
{
    for (unsigned n : { 127u, 128u, 255u, 256u, 16383u, 16384u, 16385u, 65535u, 65536u, 80000u })
        for (unsigned missing = 0; missing < 2; ++missing)
        {
            made x{ 0x2F, 21 + n - missing };
            x.u28(17, n);
            const auto v = ci::as<profile_specific_data_view>(x.m);
            vp_eq(v.has_value(), !missing, "long profile specific data accepted iff complete");
            if (v)
            {
                vp_eq(v->data_size(), n, "long profile specific data: size");
                vp_eq(x.off(v->data_begin()), 21, "long profile specific data: begin");
                vp_eq(x.off(v->data_end()), 21 + n, "long profile specific data: end");
            }
        }
}
VPE(long_lists)
{
    constexpr unsigned counts[] = { 0, 1, 127, 128, 129, 255, 256, 384, 3000 };
    for (unsigned e : counts)
        for (unsigned d : counts)
            for (unsigned missing = 0; missing < 2; ++missing)
            {
                if (e + d > 3128)
                    continue;
                const unsigned at = 14 + 5 * e;
                made           x{ 0x21, 16 + 5 * (e + d) };
                x.u14(12, e);
                x.u14(at, d);
                if (missing)
                    x.m.data.pop_back();
                const auto v = ci::as<profile_inquiry_reply_view>(x.m);
                vp_eq(v.has_value(), !missing, "profile inquiry reply with many profiles accepted iff complete");
                if (!v)
                    continue;
                vp_eq(v->num_enabled_profiles(), e, "many profiles: number of enabled profiles");
                vp_eq(v->num_disabled_profiles(), d, "many profiles: number of disabled profiles");
                vp_eq(v->has_enabled_profiles(), e > 0, "many profiles: has enabled profiles");
                vp_eq(v->has_disabled_profiles(), d > 0, "many profiles: has disabled profiles");
                if (e + d < 400)
                {
                    const auto le = v->enabled_profiles();
                    const auto ld = v->disabled_profiles();
                    vp_eq(le.size(), e, "many profiles: enabled profiles");
                    vp_eq(ld.size(), d, "many profiles: disabled profiles");
                    if (e)
                        vp_eq(le[e - 1].byte5, x.m.data[at - 1], "many profiles: last enabled profile");
                    if (d)
                        vp_eq(ld[d - 1].byte5, x.m.data[15 + 5 * (e + d)], "many profiles: last disabled profile");
                }
            }
}
VPE(longest_lists)
{
    constexpr unsigned counts[][2] = { { 8191, 1 }, { 13107, 2 }, { 13200, 3 }, { 16383, 0 }, { 0, 16383 }, { 3, 13108 } };
    for (auto& [e, d] : counts)
        for (unsigned missing = 0; missing < 2; ++missing)
        {
            made x{ 0x21, 16 + 5 * (e + d) };
            x.u14(12, e);
            x.u14(14 + 5 * e, d);
            if (missing)
                x.m.data.pop_back();
            const auto v = ci::as<profile_inquiry_reply_view>(x.m);
            vp_eq(v.has_value(), !missing, "profile inquiry reply with many profiles accepted iff complete");
            if (!v)
                continue;
            vp_eq(v->num_enabled_profiles(), e, "many profiles: number of enabled profiles");
            vp_eq(v->num_disabled_profiles(), d, "many profiles: number of disabled profiles");
            vp_eq(v->has_enabled_profiles(), e > 0, "many profiles: has enabled profiles");
            vp_eq(v->has_disabled_profiles(), d > 0, "many profiles: has disabled profiles");
        }
}
VPE(long_property_data)
{
    constexpr unsigned counts[] = { 0, 1, 127, 128, 129, 255, 256, 300, 4096, 16383 };
    for (unsigned h : counts)
        for (unsigned n : counts)
            for (unsigned missing = 0; missing < 2; ++missing)
            {
                if (h + n > 17000)
                    continue;
                made x{ 0x35, 21 + h + n };
                x.u14(13, h);
                x.u14(15 + h, 300);
                x.u14(17 + h, 1);
                x.u14(19 + h, n);
                if (missing)
                    x.m.data.pop_back();
                const auto v = ci::as<get_property_data_view>(x.m);
                vp_eq(v.has_value(), !missing, "long property data accepted iff complete");
                if (!v)
                    continue;
                vp_eq(v->header_size(), h, "long property data: header size");
                vp_eq(x.off(v->header_begin()), 15, "long property data: header");
                vp_eq(x.off(v->header_end()), 15 + h, "long property data: header");
                vp_eq(v->number_of_chunks(), 300, "long property data: number of chunks");
                vp_eq(v->number_of_this_chunk(), 1, "long property data: this chunk");
                vp_eq(v->chunk_size(), n, "long property data: chunk size");
                vp_eq(x.off(v->chunk_begin()), 21 + h, "long property data: chunk");
                vp_eq(x.off(v->chunk_end()), 21 + h + n, "long property data: chunk");
            }
}
