// P09: the sysex container and its 7 bit value codec
#include "vp.h"
#include <midi/sysex.h>
#include <midi/universal_sysex.h>
using namespace midi;

namespace {
constexpr unsigned N = 7; // existing data bytes before / after
struct base
{
    uint8_t before[N];
    sysex7  m;
    explicit base(unsigned n)
      : m(0x7D0000, size_t(0))
    {
        for (unsigned i = 0; i < n; ++i)
        {
            before[i] = u7("before", 9);
            m.data.push_back(before[i]);
        }
    }
    void kept(unsigned n) const
    {
        for (unsigned i = 0; i < n; ++i)
            vp_eq(m.data[i], before[i], "appending keeps the data in front");
        vp_eq(m.manufacturerID, 0x7D0000, "appending keeps the manufacturer id");
    }
};
} // namespace

VPE(append)
{
    for (unsigned n = 0; n <= N; n += 3)
    {
        const uint8_t  a = u7("a");
        const uint16_t b = u14("b");
        const uint32_t c = uint32_t(vp_sym("c", 28, 8)), d = u32("d");
        {
            base x{ n };
            x.m.add_uint7(a);
            vp_eq(x.m.data.size(), n + 1, "add_uint7 appends one byte");
            vp_eq(x.m.data[n], a, "add_uint7 appends the value");
            x.kept(n);
        }
        {
            base x{ n };
            x.m.add_uint14(b);
            vp_eq(x.m.data.size(), n + 2, "add_uint14 appends two bytes");
            vp_eq(x.m.data[n], b & 0x7F, "add_uint14: least significant 7 bits first");
            vp_eq(x.m.data[n + 1], b >> 7, "add_uint14: most significant 7 bits last");
            vp_eq(x.m.make_uint14(n), b, "make_uint14 reads what add_uint14 wrote");
            x.kept(n);
        }
        {
            base x{ n };
            x.m.add_uint28(c);
            vp_eq(x.m.data.size(), n + 4, "add_uint28 appends four bytes");
            for (unsigned i = 0; i < 4; ++i)
                vp_eq(x.m.data[n + i], (c >> (7 * i)) & 0x7F, "add_uint28: 7 bits per byte, least significant first");
            vp_eq(x.m.make_uint28(n), c, "make_uint28 reads what add_uint28 wrote");
            x.kept(n);
        }
        {
            base x{ n };
            x.m.add_uint32(d);
            vp_eq(x.m.data.size(), n + 5, "add_uint32 appends five bytes");
            for (unsigned i = 0; i < 5; ++i)
                vp_eq(x.m.data[n + i], (d >> (7 * i)) & 0x7F, "add_uint32: 7 bits per byte, least significant first");
            vp_eq(x.m.make_uint32(n), d, "make_uint32 reads what add_uint32 wrote");
            x.kept(n);
        }
        {
            base          x{ n };
            const uint8_t src[5] = { u7("s"), u7("s"), u7("s"), u7("s"), u7("s") };
            x.m.add_data(src, 5);
            vp_eq(x.m.data.size(), n + 5, "add_data appends all bytes");
            for (unsigned i = 0; i < 5; ++i)
                vp_eq(x.m.data[n + i], src[i], "add_data appends the bytes in order");
            x.kept(n);
        }
    }
}

// out of range values never put a byte with bit 7 into a 7 bit message
VPE(masked)
{
    sysex7 m;
    m.add_uint7(u8("a"));
    m.add_uint14(u16("b"));
    m.add_uint28(u32("c"));
    m.add_uint32(u32("d"));
    device_identity id;
    id.manufacturer = u32("m");
    id.family       = u16("f");
    id.model        = u16("o");
    id.revision     = u32("r");
    m.add_device_identity(id);
    for (unsigned i = 0; i < 23; ++i)
        vp_eq(m.data[i] & 0x80, 0, "encoded values are 7 bit clean");
    vp_eq(m.is_7bit(), 1, "encoded values are 7 bit clean");
}

VPE(identity)
{
    for (unsigned n = 0; n <= N; n += 7)
    {
        base            x{ n };
        device_identity id;
        const uint8_t   a = u7("m"), b = u7("m"), c = u7("m");
        id.manufacturer = uint32_t(a) << 16 | uint32_t(b) << 8 | c;
        id.family       = u14("family");
        id.model        = u14("model");
        id.revision     = uint32_t(vp_sym("revision", 28, 8));
        x.m.add_device_identity(id);
        vp_eq(x.m.data.size(), n + 11, "a device identity takes 11 bytes");
        const uint8_t want[11] = { a, b, c, uint8_t(id.family & 0x7F), uint8_t(id.family >> 7), uint8_t(id.model & 0x7F), uint8_t(id.model >> 7),
                                   uint8_t(id.revision & 0x7F), uint8_t((id.revision >> 7) & 0x7F), uint8_t((id.revision >> 14) & 0x7F), uint8_t(id.revision >> 21) };
        for (unsigned i = 0; i < 11; ++i)
            vp_eq(x.m.data[n + i], want[i], "device identity: id, family, model and revision, least significant first");
        const auto r = x.m.make_device_identity(n);
        vp_eq(r.manufacturer, id.manufacturer, "device identity reads back its manufacturer");
        vp_eq(r.family, id.family, "device identity reads back its family");
        vp_eq(r.model, id.model, "device identity reads back its model");
        vp_eq(r.revision, id.revision, "device identity reads back its revision");
        x.kept(n);
    }
}

VPE(container)
{
    const uint32_t id = uint32_t(vp_sym("id", 24, 0));
    for (unsigned n = 0; n <= 40; n += n < 8 ? 1 : 16)
    {
        uint8_t b[40];
        bool    any8 = false;
        for (unsigned i = 0; i < n; ++i)
        {
            b[i] = u8("b", 1 + i);
            any8 = any8 || (b[i] & 0x80);
        }
        const sysex7 m{ id, b, n };
        vp_eq(m.manufacturerID, id, "constructed with its manufacturer id");
        vp_eq(m.data.size(), n, "constructed with its data");
        for (unsigned i = 0; i < n; ++i)
            vp_eq(m.data[i], b[i], "constructed with its data");
        vp_eq(m.is_7bit(), !any8, "is_7bit iff no data byte has bit 7");
        vp_eq(m.is_8bit(), any8, "is_8bit iff some data byte has bit 7");
        vp_eq(m.is_valid(), !any8 && (id & 0xFF808080) == 0, "is_valid iff id and data are 7 bit");
        vp_eq(m.empty(), n == 0 && id == 0, "empty iff neither id nor data");
        vp_eq(m.total_data_size(), id == 0 ? n : (id >> 16) ? n + 1 : n + 3, "total data size counts id and data");

        sysex7 copy{ m };
        vp_eq(copy == m, 1, "a copy is equal");
        vp_eq(copy != m, 0, "a copy is not different");
        copy.manufacturerID ^= 0x100;
        vp_eq(copy == m, 0, "another id makes it different");
        vp_eq(copy != m, 1, "another id makes it different");
        copy.manufacturerID = m.manufacturerID;
        if (n)
        {
            copy.data[n - 1] ^= 1;
            vp_eq(copy == m, 0, "another data byte makes it different");
            vp_eq(copy != m, 1, "another data byte makes it different");
            copy.data[n - 1] ^= 1;
        }
        copy.data.push_back(0);
        vp_eq(copy == m, 0, "another size makes it different");
        vp_eq(copy != m, 1, "another size makes it different");
        vp_eq(m.data.size(), n, "a copy is independent");
        copy.clear();
        vp_eq(copy.empty(), 1, "clear leaves an empty message");
        vp_eq(copy.data.size(), 0, "clear leaves an empty message");
        vp_eq(copy.manufacturerID, 0, "clear leaves an empty message");
        sysex7 whole{ m };
        whole.clear();
        vp_eq(whole.empty(), 1, "clear leaves an empty message");
        vp_eq(whole.data.size(), 0, "clear leaves an empty message");
        vp_eq(whole.manufacturerID, 0, "clear leaves an empty message");
        whole.clear();
        vp_eq(whole.empty(), 1, "clearing twice leaves an empty message");
        whole.add_uint7(5);
        vp_eq(whole.data.size(), 1, "a cleared message can be filled again");
        vp_eq(whole.data[0], 5, "a cleared message can be filled again");
        copy = m;
        vp_eq(copy == m, 1, "assignment copies");
        sysex7 moved{ std::move(copy) };
        vp_eq(moved == m, 1, "a moved to message has id and data");
    }
}
VPE(constructors)
{
    const uint32_t id = uint32_t(vp_sym("id", 24, 0));
    const uint8_t  a = u8("a"), b = u8("b");
    const sysex8   m{ id, { a, b } };
    vp_eq(m.manufacturerID, id, "list construction: id");
    vp_eq(m.data.size(), 2, "list construction: data");
    vp_eq(m.data[0], a, "list construction: data");
    vp_eq(m.data[1], b, "list construction: data");
    const sysex8 n{ id, 100 };
    vp_eq(n.data.size(), 0, "capacity construction has no data");
    vp_eq(n.manufacturerID, id, "capacity construction: id");
    const sysex8 o{ id };
    vp_eq(o.data.size(), 0, "id construction has no data");
    vp_eq(o.manufacturerID, id, "id construction: id");
    const sysex8 e;
    vp_eq(e.empty(), 1, "default construction is empty");
    sysex::data_type d;
    d.push_back(a);
    const sysex8 p{ id, d };
    vp_eq(p.data.size(), 1, "vector construction: data");
    vp_eq(p.data[0], a, "vector construction: data");
    vp_eq(p.manufacturerID, id, "vector construction: id");
}

// equality of two arbitrary messages
VPE(equality)
{
    for (unsigned n = 0; n <= 5; ++n)
        for (unsigned k = 0; k <= 5; ++k)
        {
            const uint32_t i = u32("id", 0), j = u32("id", 0);
            sysex7         a{ i }, b{ j };
            bool           same = i == j && n == k;
            uint8_t        x[5], y[5];
            for (unsigned q = 0; q < n; ++q)
                a.data.push_back(x[q] = u8("x", 1 + q));
            for (unsigned q = 0; q < k; ++q)
                b.data.push_back(y[q] = u8("y", 1 + q));
            for (unsigned q = 0; q < n && q < k; ++q)
                same = same && x[q] == y[q];
            vp_eq(a == b, same, "messages are equal iff id, size and every byte agree");
            vp_eq(a != b, !same, "messages are different iff they are not equal");
            sysex8 c{ i }, d{ j };
            c.data = a.data, d.data = b.data;
            vp_eq(c == d, same, "sysex8 messages are equal iff id, size and every byte agree");
            vp_eq(c != d, !same, "sysex8 messages are different iff they are not equal");
            vp_eq(a.is_valid(), a.is_7bit() && (i & 0xFF808080) == 0, "an id of more than three 7 bit bytes is not valid");
        }
}

// long messages: clearing, validity and size do not depend on the length
VPE(long_messages)
{
    for (const size_t n : { size_t(129), size_t(300), size_t(4096), size_t(16384), size_t(16385), size_t(20000), size_t(70001) })
    {
        sysex7 m{ 0x7D0000, n };
        for (size_t i = 0; i < n; ++i)
            m.data.push_back(uint8_t(i & 0x7F));
        vp_eq(m.is_7bit(), 1, "long data without bit 7 is 7 bit");
        vp_eq(m.is_8bit(), 0, "long data without bit 7 is not 8 bit");
        vp_eq(m.total_data_size(), n + 1, "total data size of a long message");
        const uint8_t last = u8("last");
        m.data[n - 1]      = last;
        vp_eq(m.is_7bit(), last < 0x80, "is_7bit looks at the last byte of a long message");
        vp_eq(m.is_8bit(), last >= 0x80, "is_8bit looks at the last byte of a long message");
        const sysex7 k{ m };
        vp_eq(k == m, 1, "a copy of a long message is equal");
        m.data[n - 1] ^= 1;
        vp_eq(k == m, 0, "the last byte of a long message matters");
        vp_eq(k.data[n - 1], last, "a copy of a long message is independent");
        m.clear();
        vp_eq(m.empty(), 1, "a long message is cleared");
        m.add_uint14(0x3FFF);
        vp_eq(m.data.size(), 2, "a cleared long message can be filled again");
        vp_eq(m.data[1], 0x7F, "a cleared long message can be filled again");
    }
}
VPE(late_positions)
{
    sysex7 m{ 0x7D0000 };
    m.data.resize(70000);
    device_identity d;
    d.manufacturer = uint32_t(u7("m")) << 16 | uint32_t(u7("m")) << 8 | u7("m");
    d.family       = u14("family");
    d.model        = u14("model");
    d.revision     = uint32_t(vp_sym("revision", 28, 8));
    const uint16_t a = u14("a");
    const uint32_t b = uint32_t(vp_sym("b", 28, 8)), c = u32("c");
    m.add_uint14(a);
    m.add_uint28(b);
    m.add_uint32(c);
    m.add_device_identity(d);
    vp_eq(m.make_uint14(70000), a, "14-bit value behind a lot of data");
    vp_eq(m.make_uint28(70002), b, "28-bit value behind a lot of data");
    vp_eq(m.make_uint32(70006), c, "32-bit value behind a lot of data");
    const auto e = m.make_device_identity(70011);
    vp_check(e.manufacturer == d.manufacturer && e.family == d.family && e.model == d.model && e.revision == d.revision, "device identity behind a lot of data");
    for (size_t pos : { size_t(250), size_t(255), size_t(256), size_t(4095), size_t(4096), size_t(32767), size_t(65533), size_t(65535), size_t(65536) })
    {
        for (unsigned i = 0; i < 2; ++i)
            m.data[pos + i] = uint8_t(a >> (7 * i)) & 0x7F;
        vp_eq(m.make_uint14(pos), a, "14-bit value at any position");
        for (unsigned i = 0; i < 4; ++i)
            m.data[pos + i] = uint8_t(b >> (7 * i)) & 0x7F;
        vp_eq(m.make_uint28(pos), b, "28-bit value at any position");
        for (unsigned i = 0; i < 5; ++i)
            m.data[pos + i] = uint8_t(c >> (7 * i)) & 0x7F;
        vp_eq(m.make_uint32(pos), c, "32-bit value at any position");
    }
}
