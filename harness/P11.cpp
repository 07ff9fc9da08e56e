// P11: messages made by the library are valid, 7 bit clean and read back what they were made from
#include "ci.h"
using namespace midi;
using namespace midi::ci;

namespace {
struct common
{
    uint32_t src, dst;
    uint8_t  dev;
    common()
      : src(uint32_t(vp_sym("src", 28, 8)))
      , dst(uint32_t(vp_sym("dst", 28, 8)))
      , dev(u7("dev"))
    {
    }
};
template<typename M>
void head(const M& m, uint8_t subtype, uint32_t src, uint32_t dst, uint8_t dev, unsigned size, uint8_t version = 2)
{
    vp_eq(m.manufacturerID, 0x7E0000, "made message: universal non realtime");
    vp_eq(m.data.size(), size, "made message: size");
    vp_eq(m.data[0], dev, "made message: device id");
    vp_eq(m.data[1], 0x0D, "made message: capability inquiry");
    vp_eq(m.data[2], subtype, "made message: subtype");
    vp_eq(m.data[3], version, "made message: version");
    vp_eq(m.message_version(), version, "made message: version");
    vp_eq(m.source_muid(), src, "made message: source muid");
    vp_eq(m.destination_muid(), dst, "made message: destination muid");
    vp_eq(is_capability_inquiry_message(m), 1, "made message: is a capability inquiry message");
    vp_eq(m.is_valid(), 1, "made message: id and data are 7 bit");
    const capability_inquiry_view v{ m };
    vp_eq(v.device_id(), dev, "view of a made message: device id");
    vp_eq(v.subtype(), subtype, "view of a made message: subtype");
    vp_eq(v.source_muid(), src, "view of a made message: source muid");
    vp_eq(v.destination_muid(), dst, "view of a made message: destination muid");
}
profile_id any_profile() { return profile_id{ u7("p"), u7("p"), u7("p"), u7("p"), u7("p") }; }
void same_profile(const profile_id& a, const profile_id& b)
{
    vp_check(a == b, "profile id reads back");
    vp_check(a.byte1 == b.byte1 && a.byte2 == b.byte2 && a.byte3 == b.byte3 && a.byte4 == b.byte4 && a.byte5 == b.byte5, "profile id reads back");
}
device_identity any_identity()
{
    device_identity id;
    id.manufacturer = uint32_t(u7("m")) << 16 | uint32_t(u7("m")) << 8 | u7("m");
    id.family       = u14("family");
    id.model        = u14("model");
    id.revision     = uint32_t(vp_sym("revision", 28, 8));
    return id;
}
void same_identity(const device_identity& a, const device_identity& b)
{
    vp_eq(a.manufacturer, b.manufacturer, "identity reads back: manufacturer");
    vp_eq(a.family, b.family, "identity reads back: family");
    vp_eq(a.model, b.model, "identity reads back: model");
    vp_eq(a.revision, b.revision, "identity reads back: revision");
}
struct text
{
    uint8_t b[200];
    explicit text(unsigned n)
    {
        for (unsigned i = 0; i < n; ++i)
            b[i] = u7("t", 9);
    }
    std::string_view view(unsigned n) const { return std::string_view(reinterpret_cast<const char*>(b), n); }
};
} // namespace

VPE(identity)
{
    using namespace universal_sysex;
    const uint8_t dev = u7("dev");
    {
        const auto m = make_identity_request(dev);
        vp_eq(is_identity_request(m), 1, "identity request is one");
        vp_eq(m.device_id(), dev, "identity request: device id");
        vp_eq(m.data.size(), 3, "identity request: size");
        vp_eq(m.is_valid(), 1, "identity request: 7 bit");
        vp_eq(m.type(), 0x7E06, "identity request: type");
        vp_eq(is_identity_reply(m), 0, "identity request is no reply");
    }
    for (int three = 0; three < 2; ++three)
    {
        device_identity id = any_identity();
        const uint8_t   a = u7("id"), b = u7("id");
        if (!three)
            vp_assume(a != 0);
        id.manufacturer = three ? uint32_t(a) << 8 | b : uint32_t(a) << 16;
        const auto m = make_identity_reply(id.manufacturer, id.family, id.model, id.revision, dev);
        vp_eq(is_identity_reply(m), 1, "identity reply is one");
        vp_eq(m.data.size(), three ? 14 : 12, "identity reply: size");
        vp_eq(m.is_valid(), 1, "identity reply: 7 bit");
        vp_eq(m.device_id(), dev, "identity reply: device id");
        const auto v = as_identity_reply_view(m);
        vp_eq(v.has_value(), 1, "identity reply has a view");
        same_identity(v->identity(), id);
        const auto n = make_identity_reply(id);
        vp_eq(n.device_id(), 0x7F, "identity reply: default device id");
        same_identity(as_identity_reply_view(n)->identity(), id);
        auto k = m;
        k.set_device_id(0x11);
        vp_eq(k.device_id(), 0x11, "set_device_id");
        vp_eq(k.data.size(), m.data.size(), "set_device_id keeps the size");
        same_identity(as_identity_reply_view(k)->identity(), id);
    }
}

VPE(muids)
{
    const common c;
    auto m = make_profile_inquiry_message(c.src, c.dst, c.dev);
    head(m, 0x20, c.src, c.dst, c.dev, 12);
    vp_eq(ci::as<profile_inquiry_view>(m).has_value(), 1, "profile inquiry has a view");
    const uint32_t s = uint32_t(vp_sym("s2", 28, 8)), d = uint32_t(vp_sym("d2", 28, 8));
    m.set_source_muid(s);
    head(m, 0x20, s, c.dst, c.dev, 12);
    m.set_destination_muid(d);
    head(m, 0x20, s, d, c.dev, 12);
    const ci::message q{ 0x55, c.src, c.dst, c.dev };
    head(q, 0x55, c.src, c.dst, c.dev, 12);
    const auto w = ci::message::make_with_payload_size(7, 0x55, c.src, c.dst, c.dev);
    head(w, 0x55, c.src, c.dst, c.dev, 12);
}

VPE(discovery)
{
    const common   c;
    const auto     id = any_identity();
    const uint8_t  cat = u7("cat"), path = u7("path"), fb = u7("fb");
    const uint32_t max = uint32_t(vp_sym("max", 28, 8));
    const auto check = [&](const auto& v, bool v2) {
        vp_eq(v.has_value(), 1, "discovery message has a view");
        same_identity(v->identity(), id);
        vp_eq(v->categories(), cat, "discovery: categories read back");
        vp_eq(v->maximum_message_size(), max, "discovery: maximum message size reads back");
        vp_eq(v->output_path_id(), v2 ? path : 0, "discovery: output path reads back");
    };
    {
        const auto m = make_discovery_inquiry(c.src, id, cat, max, path);
        head(m, 0x70, c.src, 0x0FFFFFFF, 0x7F, 29);
        check(ci::as<discovery_inquiry_view>(m), true);
        vp_eq(ci::as<discovery_reply_view>(m).has_value(), 0, "an inquiry is no reply");
    }
    {
        const auto m = make_discovery_inquiry_v1(c.src, id, cat, max);
        head(m, 0x70, c.src, 0x0FFFFFFF, 0x7F, 28, 1);
        check(ci::as<discovery_inquiry_view>(m), false);
    }
    {
        const auto m = make_discovery_reply(c.src, c.dst, id, cat, max, path, fb);
        head(m, 0x71, c.src, c.dst, 0x7F, 30);
        const auto v = ci::as<discovery_reply_view>(m);
        check(v, true);
        vp_eq(v->function_block(), fb, "discovery reply: function block reads back");
        vp_eq(ci::as<discovery_inquiry_view>(m).has_value(), 0, "a reply is no inquiry");
    }
    {
        const auto m = make_discovery_reply_v1(c.src, c.dst, id, cat, max);
        head(m, 0x71, c.src, c.dst, 0x7F, 28, 1);
        const auto v = ci::as<discovery_reply_view>(m);
        check(v, false);
        vp_eq(v->function_block(), 0x7F, "discovery reply version 1: function block");
    }
}

VPE(management)
{
    const common  c;
    const uint8_t st = u7("st");
    {
        const auto m = make_endpoint_information_inquiry(c.src, c.dst, st);
        head(m, 0x72, c.src, c.dst, 0x7F, 13);
        const auto v = ci::as<endpoint_information_inquiry_view>(m);
        vp_eq(v.has_value(), 1, "endpoint information inquiry has a view");
        vp_eq(v->status(), st, "endpoint information inquiry: status reads back");
    }
    const text t{ 130 };
    for (unsigned n : { 0u, 1u, 5u, 127u, 128u, 130u })
    {
        const auto m = make_endpoint_information_reply(c.src, c.dst, st, t.b, n);
        head(m, 0x73, c.src, c.dst, 0x7F, 15 + n);
        const auto v = ci::as<endpoint_information_reply_view>(m);
        vp_eq(v.has_value(), 1, "endpoint information reply has a view");
        vp_eq(v->status(), st, "endpoint information reply: status reads back");
        vp_eq(v->information_data_length(), n, "endpoint information reply: length reads back");
        for (unsigned i = 0; i < n; ++i)
            vp_eq(v->information_data()[i], t.b[i], "endpoint information reply: data reads back");
    }
    {
        const uint32_t target = uint32_t(vp_sym("target", 28, 8));
        const auto     m = make_invalidate_muid_message(c.src, target);
        head(m, 0x7E, c.src, 0x0FFFFFFF, 0x7F, 16);
        const auto v = ci::as<invalidate_muid_view>(m);
        vp_eq(v.has_value(), 1, "invalidate muid has a view");
        vp_eq(v->target_muid(), target, "invalidate muid: target reads back");
    }
}

VPE(ack_nak)
{
    const common  c;
    const uint8_t tr = u7("tr"), code = u7("code"), data = u7("data");
    uint8_t       det[5] = { u7("det"), u7("det"), u7("det"), u7("det"), u7("det") };
    const text    t{ 130 };
    const auto    check = [&](const auto& v, uint8_t transaction, unsigned n) {
        vp_eq(v.has_value(), 1, "ack/nak has a view");
        vp_eq(v->transaction(), transaction, "ack/nak: transaction reads back");
        vp_eq(v->status_code(), code, "ack/nak: status code reads back");
        vp_eq(v->status_data(), data, "ack/nak: status data reads back");
        for (int i = 0; i < 5; ++i)
            vp_eq(v->details()[i], det[i], "ack/nak: details read back");
        vp_eq(v->message_length(), n, "ack/nak: length reads back");
        const auto s = v->message();
        vp_eq(s.size(), n, "ack/nak: text reads back");
        for (unsigned i = 0; i < n; ++i)
            vp_eq(uint8_t(s[i]), t.b[i], "ack/nak: text reads back");
    };
    for (unsigned n : { 0u, 3u, 127u, 128u, 130u })
    {
        const auto a = make_ack_message(c.src, c.dst, c.dev, tr, code, data, det, t.view(n));
        head(a, 0x7D, c.src, c.dst, c.dev, 22 + n);
        check(ci::as<ack_view>(a), tr, n);
        vp_eq(ci::as<nak_view>(a).has_value(), 0, "an ack is no nak");
        const auto k = make_nak_message(c.src, c.dst, c.dev, tr, code, data, det, t.view(n));
        head(k, 0x7F, c.src, c.dst, c.dev, 22 + n);
        check(ci::as<nak_view>(k), tr, n);
        vp_eq(ci::as<ack_view>(k).has_value(), 0, "a nak is no ack");
        // answering: source and destination swapped, transaction is the subtype answered to
        const ci::message q{ 0x34, c.src, c.dst, c.dev };
        const auto        r = make_nak_message(capability_inquiry_view{ q }, code, data, det, t.view(n));
        head(r, 0x7F, c.dst, c.src, c.dev, 22 + n);
        check(ci::as<nak_view>(r), 0x34, n);
    }
    const auto v1 = make_nak_message_v1(c.src, c.dst, c.dev);
    head(v1, 0x7F, c.src, c.dst, c.dev, 12, 1);
    vp_eq(ci::as<nak_view>(v1).has_value(), 0, "a version 1 nak has no details");
    const ci::message q{ 0x34, c.src, c.dst, c.dev };
    head(make_nak_message_v1(capability_inquiry_view{ q }), 0x7F, c.dst, c.src, c.dev, 12, 1);
}

VPE(profile_lists)
{
    const common c;
    profile_id   e[4], d[4];
    for (int i = 0; i < 4; ++i)
    {
        e[i] = any_profile();
        d[i] = any_profile();
    }
    for (unsigned ne = 0; ne <= 4; ++ne)
        for (unsigned nd = 0; nd <= 4; ++nd)
        {
            const auto m = make_profile_inquiry_reply(c.src, c.dst, e, ne, d, nd, c.dev);
            head(m, 0x21, c.src, c.dst, c.dev, 16 + 5 * (ne + nd));
            const auto v = ci::as<profile_inquiry_reply_view>(m);
            vp_eq(v.has_value(), 1, "profile inquiry reply has a view");
            vp_eq(v->num_enabled_profiles(), ne, "profile inquiry reply: number of enabled profiles");
            vp_eq(v->num_disabled_profiles(), nd, "profile inquiry reply: number of disabled profiles");
            vp_eq(v->has_enabled_profiles(), ne > 0, "profile inquiry reply: has enabled profiles");
            vp_eq(v->has_disabled_profiles(), nd > 0, "profile inquiry reply: has disabled profiles");
            const auto le = v->enabled_profiles();
            const auto ld = v->disabled_profiles();
            vp_eq(le.size(), ne, "profile inquiry reply: enabled profiles");
            vp_eq(ld.size(), nd, "profile inquiry reply: disabled profiles");
            for (unsigned i = 0; i < ne; i += (i < 300 || i + 3 > ne) ? 1 : i + 100 < ne ? 97 : ne - i - 2)
                same_profile(le[i], e[i]);
            for (unsigned i = 0; i < nd; i += (i < 300 || i + 3 > nd) ? 1 : i + 100 < nd ? 97 : nd - i - 2)
                same_profile(ld[i], d[i]);
        }
    {
        const std::vector<profile_id> ve(e, e + 3), vd(d, d + 1);
        const auto                    m = make_profile_inquiry_reply(c.src, c.dst, ve, vd, c.dev);
        const auto                    v = ci::as<profile_inquiry_reply_view>(m);
        vp_eq(v->num_enabled_profiles(), 3, "profile inquiry reply from vectors");
        vp_eq(v->num_disabled_profiles(), 1, "profile inquiry reply from vectors");
        same_profile(v->enabled_profiles()[2], e[2]);
        same_profile(v->disabled_profiles()[0], d[0]);
    }
}
VPE(profile_many)
{
    // more than 127 profiles: both bytes of the counts matter
    static profile_id e[130];
    const auto        last = any_profile();
    e[129]                 = last;
    const auto m = make_profile_inquiry_reply(1, 2, e, 130, e + 127, 3);
    const auto v = ci::as<profile_inquiry_reply_view>(m);
    vp_eq(v.has_value(), 1, "long profile list has a view");
    vp_eq(v->num_enabled_profiles(), 130, "long profile list: number");
    vp_eq(v->num_disabled_profiles(), 3, "long profile list: number");
    const auto l = v->enabled_profiles();
    vp_eq(l.size(), 130, "long profile list: number");
    same_profile(l[129], last);
    same_profile(v->disabled_profiles()[2], last);
}

VPE(equality)
{
    const auto a = any_profile(), b = any_profile();
    vp_eq(a == b, a.byte1 == b.byte1 && a.byte2 == b.byte2 && a.byte3 == b.byte3 && a.byte4 == b.byte4 && a.byte5 == b.byte5, "profile ids are equal iff all of their bytes are");
    const profile_destination c{ u7("scope"), u14("channels") }, d{ u7("scope"), u14("channels") };
    vp_eq(c == d, c.scope == d.scope && c.num_channels == d.num_channels, "profile destinations are equal iff scope and channels are");
    const auto e = channel_profile(c.scope, c.num_channels);
    vp_check(e.scope == c.scope && e.num_channels == c.num_channels, "a channel profile has the given channels");
}
VPE(data_views)
{
    using namespace property_exchange;
    const text t{ 9 };
    const auto same = [&](const uint7_t* data, size_t size, std::string_view s, unsigned n) {
        vp_eq(size, n, "header and chunk: size of the data they were made from");
        vp_eq(s.size(), n, "header and chunk: size as text");
        for (unsigned i = 0; i < n; ++i)
        {
            vp_eq(data[i], t.b[i], "header and chunk: the data they were made from");
            vp_eq(uint8_t(s[i]), t.b[i], "header and chunk: the data as text");
        }
    };
    for (unsigned n = 0; n <= 9; ++n)
    {
        const std::string          s{ t.view(n) };
        const std::vector<uint7_t> v(t.b, t.b + n);
        for (const auto& h : { header(t.b, n), header(reinterpret_cast<const char*>(t.b), n), header(v), header(s), header(t.view(n)) })
            same(h.data, h.size, h.as_string_view(), n);
        for (const auto& h : { chunk(t.b, n), chunk(reinterpret_cast<const char*>(t.b), n), chunk(v), chunk(s), chunk(t.view(n)) })
            same(h.data, h.size, h.as_string_view(), n);
    }
    vp_check(header().size == 0 && chunk().size == 0, "an empty header and chunk");
}
VPE(profile_messages)
{
    const common              c;
    const auto                p = any_profile();
    const profile_destination dest{ u7("scope"), u14("channels") };
    const auto check = [&](const message& m, uint8_t subtype, unsigned channels) {
        head(m, subtype, c.src, c.dst, dest.scope, 19);
        const auto v = ci::as<profile_destination_view>(m);
        vp_eq(v.has_value(), 1, "profile message has a destination view");
        same_profile(v->profile(), p);
        vp_eq(v->num_channels(), channels, "profile message: channels read back");
        vp_eq(v->params().scope, dest.scope, "profile message: scope reads back");
        vp_eq(v->params().num_channels, channels, "profile message: channels read back");
        const auto i = ci::as<profile_id_view>(m);
        vp_eq(i.has_value(), 1, "profile message has an id view");
        same_profile(i->profile(), p);
    };
    check(make_profile_on_request(c.src, c.dst, p, dest), 0x22, dest.num_channels);
    check(make_profile_off_request(c.src, c.dst, p, dest), 0x23, 0);
    check(make_profile_enabled_notification(c.src, c.dst, p, dest), 0x24, dest.num_channels);
    check(make_profile_disabled_notification(c.src, c.dst, p, dest), 0x25, dest.num_channels);
    for (int removed = 0; removed < 2; ++removed)
    {
        const auto m = removed ? make_profile_removed_notification(c.src, c.dst, p, c.dev) : make_profile_added_notification(c.src, c.dst, p, c.dev);
        head(m, removed ? 0x27 : 0x26, c.src, c.dst, c.dev, 17);
        const auto v = ci::as<profile_id_view>(m);
        vp_eq(v.has_value(), 1, "profile added/removed has an id view");
        same_profile(v->profile(), p);
        vp_eq(ci::as<profile_destination_view>(m).has_value(), 0, "profile added/removed has no destination");
    }
    const uint8_t target = u7("target");
    {
        const auto m = make_profile_details_inquiry(c.src, c.dst, p, target, c.dev);
        head(m, 0x28, c.src, c.dst, c.dev, 18);
        const auto v = ci::as<profile_details_inquiry_view>(m);
        vp_eq(v.has_value(), 1, "profile details inquiry has a view");
        same_profile(v->profile(), p);
        vp_eq(v->target(), target, "profile details inquiry: target reads back");
    }
    const text t{ 130 };
    for (unsigned n : { 0u, 1u, 4u, 127u, 128u, 130u })
    {
        const auto m = make_profile_details_reply(c.src, c.dst, p, target, t.b, n, c.dev);
        head(m, 0x29, c.src, c.dst, c.dev, 20 + n);
        const auto v = ci::as<profile_details_reply_view>(m);
        vp_eq(v.has_value(), 1, "profile details reply has a view");
        same_profile(v->profile(), p);
        vp_eq(v->target(), target, "profile details reply: target reads back");
        vp_eq(v->target_data_length(), n, "profile details reply: length reads back");
        for (unsigned i = 0; i < n; ++i)
            vp_eq(v->target_data()[i], t.b[i], "profile details reply: data reads back");
    }
    for (unsigned n : { 0u, 1u, 4u, 127u, 128u, 130u })
    {
        const std::vector<uint7_t> vec(t.b, t.b + n);
        for (int k = 0; k < 2; ++k)
        {
            const auto m = k ? make_profile_specific_data_message(c.src, c.dst, p, vec, c.dev) : make_profile_specific_data_message(c.src, c.dst, p, t.b, n, c.dev);
            head(m, 0x2F, c.src, c.dst, c.dev, 21 + n);
            const auto v = ci::as<profile_specific_data_view>(m);
            vp_eq(v.has_value(), 1, "profile specific data has a view");
            same_profile(v->profile(), p);
            vp_eq(v->data_size(), n, "profile specific data: size reads back");
            vp_eq(size_t(v->data_end() - v->data_begin()), n, "profile specific data: range has the size");
            for (unsigned i = 0; i < n; ++i)
                vp_eq(v->data_begin()[i], t.b[i], "profile specific data: data reads back");
        }
    }
}
VPE(profile_data_large)
{
    // 28 bit size: more than 16 bits of it in use
    const std::vector<uint7_t> vec(0x10000 + 5);
    const auto m = make_profile_specific_data_message(1, 2, profile_id{}, vec);
    vp_eq(m.data.size(), 21 + 0x10005, "profile specific data of more than 64k keeps all data");
    vp_eq(m.make_uint28(17), 0x10005, "profile specific data of more than 64k announces its size");
}

VPE(process_inquiry)
{
    const common  c;
    const uint8_t a = u7("a"), s = u7("s"), ch = u7("ch"), n = u7("n");
    head(make_process_inquiry_capabilities_inquiry(c.src, c.dst, c.dev), 0x40, c.src, c.dst, c.dev, 12);
    {
        const auto m = make_process_inquiry_capabilities_reply(c.src, c.dst, a, c.dev);
        head(m, 0x41, c.src, c.dst, c.dev, 13);
        const auto v = ci::as<process_inquiry_capabilities_reply_view>(m);
        vp_eq(v.has_value(), 1, "process inquiry capabilities reply has a view");
        vp_eq(v->supported_features(), a, "process inquiry capabilities reply: features read back");
    }
    {
        const auto m = make_midi_message_report_inquiry(c.src, c.dst, a, s, ch, n, c.dev);
        head(m, 0x42, c.src, c.dst, c.dev, 17);
        const auto v = ci::as<midi_message_report_inquiry_view>(m);
        vp_eq(v.has_value(), 1, "message report inquiry has a view");
        vp_eq(v->message_data_control(), a, "message report inquiry: control reads back");
        vp_eq(v->system_message_types(), s, "message report inquiry: system messages read back");
        vp_eq(v->channel_controller_message_types(), ch, "message report inquiry: channel messages read back");
        vp_eq(v->note_data_message_types(), n, "message report inquiry: note messages read back");
        vp_eq(m.data[14], 0, "message report inquiry: reserved byte is 0");
    }
    {
        const auto m = make_midi_message_report_reply(c.src, s, ch, n, c.dev);
        head(m, 0x43, c.src, 0x0FFFFFFF, c.dev, 16);
        const auto v = ci::as<midi_message_report_reply_view>(m);
        vp_eq(v.has_value(), 1, "message report reply has a view");
        vp_eq(v->system_message_types(), s, "message report reply: system messages read back");
        vp_eq(v->channel_controller_message_types(), ch, "message report reply: channel messages read back");
        vp_eq(v->note_data_message_types(), n, "message report reply: note messages read back");
        vp_eq(m.data[13], 0, "message report reply: reserved byte is 0");
    }
    head(make_midi_message_report_end(c.src, c.dev), 0x44, c.src, 0x0FFFFFFF, c.dev, 12);
}

VPE(property_capabilities)
{
    const common  c;
    const uint8_t n = u7("n");
    for (int reply = 0; reply < 2; ++reply)
    {
        const auto m = reply ? make_property_exchange_capabilities_reply(c.src, c.dst, n, c.dev) : make_property_exchange_capabilities_inquiry(c.src, c.dst, n, c.dev);
        head(m, 0x30 + reply, c.src, c.dst, c.dev, 15);
        const auto v = ci::as<property_exchange_capabilities_view>(m);
        vp_eq(v.has_value(), 1, "property exchange capabilities has a view");
        vp_eq(v->maximum_number_of_requests(), n, "property exchange capabilities: requests read back");
        vp_eq(v->pe_version_major(), property_exchange::version_major, "property exchange capabilities: major version");
        vp_eq(v->pe_version_minor(), property_exchange::version_minor, "property exchange capabilities: minor version");
    }
}

namespace {
// header text of a property exchange message
template<typename V>
void property(const message& m, const common& c, uint8_t subtype, uint8_t req, std::string_view header, unsigned chunks, unsigned cur, const uint8_t* chunk, unsigned nchunk)
{
    const unsigned nh = unsigned(header.size());
    head(m, subtype, c.src, c.dst, c.dev, 21 + nh + nchunk);
    const auto v = ci::as<V>(m);
    vp_eq(v.has_value(), 1, "property data message has a view");
    vp_eq(v->request_id(), req, "property data message: request id reads back");
    vp_eq(v->header_size(), nh, "property data message: header size reads back");
    vp_eq(size_t(v->header_end() - v->header_begin()), nh, "property data message: header range");
    for (unsigned i = 0; i < nh; ++i)
        vp_eq(v->header_begin()[i], uint8_t(header[i]), "property data message: header reads back");
    vp_eq(v->number_of_chunks(), chunks, "property data message: number of chunks reads back");
    vp_eq(v->number_of_this_chunk(), cur, "property data message: this chunk reads back");
    vp_eq(v->chunk_size(), nchunk, "property data message: chunk size reads back");
    vp_eq(size_t(v->chunk_end() - v->chunk_begin()), nchunk, "property data message: chunk range");
    for (unsigned i = 0; i < nchunk; ++i)
        vp_eq(v->chunk_begin()[i], chunk[i], "property data message: chunk reads back");
}
struct joined
{
    char     b[200];
    unsigned n = 0;
    joined&  operator+(std::string_view s)
    {
        for (char c : s)
            b[n++] = c;
        return *this;
    }
    operator std::string_view() const { return { b, n }; }
};
} // namespace

VPE(property_data)
{
    using namespace property_exchange;
    const common  c;
    const uint8_t req = u7("req");
    const text    t{ 130 }, x{ 40 };
    for (unsigned nc : { 0u, 3u, 130u })
        for (unsigned nh : { 0u, 2u, 130u })
        {
            const uint14_t cur = nh || !nc ? 1 : u14("cur");
            if (!nh && nc)
                vp_assume(cur >= 1);
            const uint14_t total = u14("total");
            vp_assume(total == 0 || cur <= total);
            property<get_property_data_view>(make_get_property_data_reply(c.src, c.dst, header(t.b, nh), total, cur, chunk(t.b + 1, nc > 129 ? 129 : nc), req, c.dev), c, 0x35, req, t.view(nh), total, cur, t.b + 1, nc > 129 ? 129 : nc);
        }
    for (unsigned nr : { 1u, 4u, 20u })
    {
        const auto r = x.view(nr);
        joined     h;
        h + "{\"resource\":\"" + r + "\"}";
        property<get_property_data_view>(make_get_property_data_inquiry(c.src, c.dst, r, req, c.dev), c, 0x34, req, h, 1, 1, nullptr, 0);
        property<set_property_data_view>(make_set_property_data_inquiry(c.src, c.dst, r, 2, 1, chunk(t.b, 7), req, c.dev), c, 0x36, req, h, 2, 1, t.b, 7);
    }
    property<get_property_data_view>(make_get_property_data_reply(c.src, c.dst, 5, 3, chunk(t.b, 7), req, c.dev), c, 0x35, req, "", 5, 3, t.b, 7);
    property<set_property_data_view>(make_set_property_data_inquiry(c.src, c.dst, 5, 3, chunk(t.b, 7), req, c.dev), c, 0x36, req, "", 5, 3, t.b, 7);
    property<subscription_view>(make_subscription_inquiry(c.src, c.dst, 5, 3, chunk(t.b, 7), req, c.dev), c, 0x38, req, "", 5, 3, t.b, 7);
}
VPE(property_status)
{
    using namespace property_exchange;
    const common  c;
    const uint8_t req = u7("req");
    const text    t{ 10 };
    const char*   texts[] = { "{\"status\":200}", "{\"status\":404}", "{\"status\":0}", "{\"status\":-12}", "{\"status\":7}" };
    const int     codes[] = { 200, 404, 0, -12, 7 };
    for (int i = 0; i < 5; ++i)
    {
        property<get_property_data_view>(make_get_property_data_reply(c.src, c.dst, codes[i], 2, 1, chunk(t.b, 7), req, c.dev), c, 0x35, req, texts[i], 2, 1, t.b, 7);
        property<set_property_data_view>(make_set_property_data_reply(c.src, c.dst, codes[i], req, c.dev), c, 0x37, req, texts[i], 1, 1, nullptr, 0);
        property<subscription_view>(make_subscription_reply(c.src, c.dst, codes[i], req, c.dev), c, 0x39, req, texts[i], 1, 1, nullptr, 0);
        property<notify_view>(make_notify_message(c.src, c.dst, codes[i], req, c.dev), c, 0x3F, req, texts[i], 1, 1, nullptr, 0);
    }
}
VPE(property_options)
{
    using namespace property_exchange;
    const common  c;
    const uint8_t req = u7("req");
    const text    t{ 10 };
    const std::string_view msgs[]  = { "busy", "", "-", "12", "-3", "1a", "-x", "0" };
    const std::string_view quoted[] = { "\"busy\"", "\"\"", "\"-\"", "12", "-3", "\"1a\"", "\"-x\"", "0" };
    for (int i = 0; i < 8; ++i)
    {
        joined h;
        h + "{\"status\":404,\"message\":" + quoted[i] + "}";
        property<get_property_data_view>(make_get_property_data_reply(c.src, c.dst, 404, msgs[i], 2, 1, chunk(t.b, 7), req, c.dev), c, 0x35, req, h, 2, 1, t.b, 7);
        property<set_property_data_view>(make_set_property_data_reply(c.src, c.dst, 404, msgs[i], req, c.dev), c, 0x37, req, h, 1, 1, nullptr, 0);
        property<subscription_view>(make_subscription_reply(c.src, c.dst, 404, msgs[i], req, c.dev), c, 0x39, req, h, 1, 1, nullptr, 0);
        property<notify_view>(make_notify_message(c.src, c.dst, 404, msgs[i], req, c.dev), c, 0x3F, req, h, 1, 1, nullptr, 0);
        joined g;
        g + "{\"resource\":\"Foo\",\"offset\":" + quoted[i] + ",\"limit\":5}";
        const header_options o{ { "offset", msgs[i] }, { "limit", "5" } };
        property<get_property_data_view>(make_get_property_data_inquiry(c.src, c.dst, "Foo", o, req, c.dev), c, 0x34, req, g, 1, 1, nullptr, 0);
        property<set_property_data_view>(make_set_property_data_inquiry(c.src, c.dst, "Foo", o, 2, 1, chunk(t.b, 7), req, c.dev), c, 0x36, req, g, 2, 1, t.b, 7);
    }
    property<subscription_view>(make_subscription_inquiry(c.src, c.dst, "Foo", "start", "id1", req, c.dev), c, 0x38, req, "{\"resource\":\"Foo\",\"command\":\"start\",\"subscribeId\":\"id1\"}", 0, 0, nullptr, 0);
    property<subscription_view>(make_subscription_inquiry(c.src, c.dst, "Foo", "partial", "id1", 2, 1, chunk(t.b, 7), req, c.dev), c, 0x38, req, "{\"resource\":\"Foo\",\"command\":\"partial\",\"subscribeId\":\"id1\"}", 2, 1, t.b, 7);
}

// embedded lengths of all magnitudes; the bytes are taken in turn from a few arbitrary ones
namespace {
struct long_text
{
    std::vector<uint7_t> b;
    explicit long_text(unsigned n)
      : b(n)
    {
        uint8_t s[17];
        for (auto& x : s)
            x = u7("s", 1);
        for (unsigned i = 0; i < n; ++i)
            b[i] = s[i % 17];
    }
    std::string_view view(unsigned n) const { return std::string_view{ reinterpret_cast<const char*>(b.data()), n }; }
    void             same(const uint7_t* d, unsigned n, const char* rule) const
    {
        for (unsigned i = 0; i < n; ++i)
            vp_eq(d[i], b[i], rule);
    }
};
void long_management(std::initializer_list<unsigned> sizes)
{
    const common    c;
    const auto      p = any_profile();
    const long_text t{ 16383 };
    uint8_t         det[5] = { 1, 2, 3, 4, 5 };
    for (unsigned n : sizes)
    {
        const ci::message q{ 0x34, c.src, c.dst, c.dev };
        const ci::message ms[] = { make_ack_message(c.src, c.dst, c.dev, 0x34, 1, 2, det, t.view(n)), make_nak_message(c.dst, c.src, c.dev, 0x34, 1, 2, det, t.view(n)),
                                   make_nak_message(capability_inquiry_view{ q }, 1, 2, det, t.view(n)) };
        for (int k = 0; k < 3; ++k)
        {
            head(ms[k], k ? 0x7F : 0x7D, k ? c.dst : c.src, k ? c.src : c.dst, c.dev, 22 + n);
            const auto a = ci::as<ack_view>(ms[k]);
            const auto b = ci::as<nak_view>(ms[k]);
            vp_eq(a.has_value(), k == 0, "long ack has a view");
            vp_eq(b.has_value(), k != 0, "long nak has a view");
            const nack::view v{ ms[k] };
            vp_eq(v.message_length(), n, "long ack/nak: length reads back");
            vp_eq(v.message().size(), n, "long ack/nak: text reads back");
            t.same(v.message_data(), n, "long ack/nak: text reads back");
        }
        {
            const auto m = make_endpoint_information_reply(c.src, c.dst, 3, t.b.data(), n);
            head(m, 0x73, c.src, c.dst, 0x7F, 15 + n);
            const auto v = ci::as<endpoint_information_reply_view>(m);
            vp_eq(v.has_value(), 1, "long endpoint information has a view");
            vp_eq(v->information_data_length(), n, "long endpoint information: length reads back");
            t.same(v->information_data(), n, "long endpoint information: data reads back");
        }
        {
            const auto m = make_profile_details_reply(c.src, c.dst, p, 5, t.b.data(), n, c.dev);
            head(m, 0x29, c.src, c.dst, c.dev, 20 + n);
            const auto v = ci::as<profile_details_reply_view>(m);
            vp_eq(v.has_value(), 1, "long profile details have a view");
            vp_eq(v->target_data_length(), n, "long profile details: length reads back");
            t.same(v->target_data(), n, "long profile details: data reads back");
        }
    }
}
void long_property(std::initializer_list<std::pair<unsigned, unsigned>> sizes)
{
    using namespace property_exchange;
    const common    c;
    const long_text t{ 16383 };
    const uint8_t   req = u7("req");
    for (auto [nh, nc] : sizes)
    {
        const auto m = make_get_property_data_reply(c.src, c.dst, header(t.b.data(), nh), 2, 1, chunk(t.b.data(), nc), req, c.dev);
        property<get_property_data_view>(m, c, 0x35, req, t.view(nh), 2, 1, t.b.data(), nc);
        const auto s = make_set_property_data_inquiry(c.src, c.dst, 500, 300, chunk(t.b.data(), nc), req, c.dev);
        property<set_property_data_view>(s, c, 0x36, req, "", 500, 300, t.b.data(), nc);
    }
}
// lists of many profiles, from arrays and vectors
void long_lists(std::initializer_list<std::pair<unsigned, unsigned>> sizes)
{
    const common            c;
    const profile_id        a = any_profile(), b = any_profile();
    unsigned                longest = 0;
    for (auto [ne, nd] : sizes)
        longest = longest > ne ? longest > nd ? longest : nd : ne > nd ? ne : nd;
    std::vector<profile_id> l(longest);
    for (unsigned i = 0; i < longest; ++i)
        l[i] = i % 3 ? a : b;
    for (auto [ne, nd] : sizes)
        for (int k = 0; k < 2; ++k)
        {
            const std::vector<profile_id> e(l.begin(), l.begin() + ne), d(l.begin(), l.begin() + nd);
            const auto                    m = k ? make_profile_inquiry_reply(c.src, c.dst, e, d, c.dev) : make_profile_inquiry_reply(c.src, c.dst, e.data(), ne, d.data(), nd, c.dev);
            head(m, 0x21, c.src, c.dst, c.dev, 16 + 5 * (ne + nd));
            const auto v = ci::as<profile_inquiry_reply_view>(m);
            vp_eq(v.has_value(), 1, "many profiles have a view");
            vp_eq(v->num_enabled_profiles(), ne, "many profiles: number of enabled profiles");
            vp_eq(v->num_disabled_profiles(), nd, "many profiles: number of disabled profiles");
            vp_eq(v->has_enabled_profiles(), ne > 0, "many profiles: has enabled profiles");
            vp_eq(v->has_disabled_profiles(), nd > 0, "many profiles: has disabled profiles");
            const auto le = v->enabled_profiles();
            const auto ld = v->disabled_profiles();
            vp_eq(le.size(), ne, "many profiles: enabled profiles");
            vp_eq(ld.size(), nd, "many profiles: disabled profiles");
            for (unsigned i = 0; i < ne; ++i)
                same_profile(le[i], e[i]);
            for (unsigned i = 0; i < nd; ++i)
                same_profile(ld[i], d[i]);
        }
}
} // namespace
VPE(long_management_1) { long_management({ 255, 256, 257, 511, 512 }); }
VPE(long_management_2) { long_management({ 1023, 1024, 2047, 2048 }); }
VPE(long_management_3) { long_management({ 4095, 4096 }); }
VPE(long_management_4) { long_management({ 8192, 16383 }); }
VPE(long_property_1) { long_property({ { 255, 256 }, { 256, 255 }, { 300, 0 }, { 0, 300 }, { 511, 512 }, { 1024, 1023 } }); }
VPE(long_property_2) { long_property({ { 2048, 2047 }, { 4095, 4096 }, { 4096, 4095 } }); }
VPE(long_property_3) { long_property({ { 16383, 10 }, { 10, 16383 }, { 8192, 8192 } }); }
VPE(long_lists_1) { long_lists({ { 0, 128 }, { 128, 0 }, { 127, 129 }, { 256, 1 }, { 1, 256 } }); }
VPE(long_lists_2) { long_lists({ { 255, 257 }, { 384, 640 }, { 1000, 2 }, { 3, 1000 } }); }
VPE(long_lists_3) { long_lists({ { 4097, 3 }, { 2, 5000 } }); }
VPE(long_lists_4) { long_lists({ { 13200, 4 } }); }
VPE(long_lists_5) { long_lists({ { 4, 16383 } }); }
VPE(long_profile_data)
{
    const common    c;
    const auto      p = any_profile();
    const long_text t{ 70000 };
    for (unsigned n : { 255u, 256u, 1000u, 16383u, 16384u, 16385u, 65535u, 65536u, 70000u })
    {
        const auto m = make_profile_specific_data_message(c.src, c.dst, p, t.b.data(), n, c.dev);
        head(m, 0x2F, c.src, c.dst, c.dev, 21 + n);
        const auto v = ci::as<profile_specific_data_view>(m);
        vp_eq(v.has_value(), 1, "long profile specific data has a view");
        vp_eq(v->data_size(), n, "long profile specific data: size reads back");
        vp_eq(size_t(v->data_end() - v->data_begin()), n, "long profile specific data: range has the size");
        t.same(v->data_begin(), n, "long profile specific data: data reads back");
    }
}
