// P27: sysex memory is taken from the configured allocator and given back
#include "ci.h"
#include <midi/midi1_byte_stream.h>
#include <midi/sysex_collector.h>
#include <midi/universal_sysex.h>
using namespace midi;

// ---- the configured source of memory ------------------------------------------------------------------------------
namespace {
constexpr size_t cell = 2600, cells = 64;
struct pool
{
    uint8_t  memory[cells][cell];
    size_t   size[cells] = {}; // 0: free
    unsigned next = 0, live = 0, total = 0;

    uint8_t* get(size_t n)
    {
        vp_check(n <= cell, "harness: pool cell is large enough");
        const unsigned i = next++;
        vp_check(i < cells, "harness: pool is large enough");
        size[i] = n;
        ++live, ++total;
        return memory[i];
    }
    void put(uint8_t* p, size_t n)
    {
        const auto i = size_t(p - &memory[0][0]) / cell;
        vp_check(p >= &memory[0][0] && p < &memory[0][0] + cells * cell && p == memory[i], "only memory of the configured source is returned to it");
        vp_check(size[i] == n && n != 0, "memory is returned once, with the size it was requested with");
        size[i] = 0;
        --live;
    }
};
} // namespace

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
static pool the_pool;
namespace midi {
uint8_t* sysex::data_allocator::allocate(std::size_t n) { return the_pool.get(n); }
void     sysex::data_allocator::deallocate(uint8_t* p, std::size_t n) noexcept { the_pool.put(p, n); }
} // namespace midi
#define BEGIN vp_no_heap(true)
#define END \
    vp_no_heap(false); \
    vp_check(the_pool.total > 0, "sysex data is requested from the configured allocator"); \
    vp_check(the_pool.live == 0, "all sysex data is given back to the configured allocator")
#define MR
#elif NIMIDI2_PMR_SYSEX_DATA
struct resource : std::pmr::memory_resource
{
    pool  p;
    void* do_allocate(size_t n, size_t) override { return p.get(n); }
    void  do_deallocate(void* d, size_t n, size_t) override { p.put(static_cast<uint8_t*>(d), n); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return &o == this; }
};
#define BEGIN
#define END vp_no_leak("all dynamic memory is released")
#else
#define BEGIN
#define END vp_no_leak("all dynamic memory is released")
#endif

// ---- operations -----------------------------------------------------------------------------------------------------
VPE(containers)
{
    BEGIN;
    {
        const uint32_t id = uint32_t(vp_sym("id", 24, 0));
        const uint8_t  b[4] = { u7("b"), u7("b"), u7("b"), u7("b") };
        sysex7         m{ id, b, 4 }, e, c{ id, size_t(20) };
        sysex7         k{ m };
        k = c;
        k = m;
        e = std::move(k);
        for (unsigned i = 0; i < 40; ++i)
            e.add_uint7(uint8_t(i));
        k = e;
        k.clear();
        sysex8 x{ id, { 1, 2, 3 } };
        sysex8 y{ std::move(x) };
        y.data.shrink_to_fit();
        m.clear();
        m.add_data(b, 4);
        std::swap(m, c);
    }
    END;
}
VPE(collectors)
{
    BEGIN;
    {
        unsigned         n = 0;
        sysex7_collector c{ [&](const sysex7& s) { n += unsigned(s.data.size()); } };
        for (unsigned i = 0; i < 3; ++i)
            c.feed(universal_packet{ 0x30000000u | uint32_t(vp_sym("status", 8, 0)) << 16 | u16("w0", 1), u32("w1", 2) });
        c.reset();
        c.set_max_sysex_data_size(20);
        for (unsigned i = 0; i < 6; ++i)
            c.feed(universal_packet{ 0x30000000u | (i ? 0x26u : 0x16u) << 16 | 0x7D01u, 0x01020304u });
        sysex8_collector d{ [&](const sysex8& s, uint8_t) { n += unsigned(s.data.size()); } };
        for (unsigned i = 0; i < 3; ++i)
            d.feed(universal_packet{ 0x50000000u | uint32_t(vp_sym("status", 8, 0)) << 16 | u16("w0", 1), u32("w1", 2), u32("w2", 3), u32("w3", 4) });
        d.feed(universal_packet{ 0x501E0000u, 0, 0, 0 }); // left incomplete
    }
    END;
}
VPE(parser)
{
    BEGIN;
    {
        unsigned                 n = 0;
        midi1_byte_stream_parser p{ [&](universal_packet) { ++n; }, [&](const sysex7& s) { n += unsigned(s.data.size()); } };
        p.feed(0xF0);
        for (unsigned i = 0; i < 1100; ++i)
            p.feed(uint8_t(0x7D));
        p.feed(u8("end"));
        p.reset();
        p.feed(0xF0);
        p.feed(1);
        p.feed(2); // left incomplete
    }
    END;
}

#if !NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR && !NIMIDI2_PMR_SYSEX_DATA
VPE(senders)
{
    {
        sysex7 m{ 0x7D0000, size_t(0) };
        for (unsigned i = 0; i < 50; ++i)
            m.data.push_back(u7("b"));
        const auto p = as_sysex7_packets(m, 1);
        sysex8     n{ 0x7D0000, size_t(0) };
        n.data       = m.data;
        const auto q = as_sysex8_packets(n, 1, 1);
        const auto u = as_sysex7_packets(sysex7{}, 0);
    }
    vp_no_leak("all dynamic memory is released");
}
VPE(messages)
{
    {
        device_identity i;
        i.manufacturer = uint32_t(u7("m")) << 16;
        const auto a = universal_sysex::identity_request{ 5 };
        const auto b = universal_sysex::identity_reply{ i };
        const ci::profile_id ps[3] = {};
        const auto c = ci::make_profile_inquiry_reply(1, 2, ps, 2, ps, 1);
        if (const auto v = ci::as<ci::profile_inquiry_reply_view>(c))
        {
            const auto e = v->enabled_profiles();
            const auto d = v->disabled_profiles();
        }
    }
    vp_no_leak("all dynamic memory is released");
}
#endif

#if NIMIDI2_PMR_SYSEX_DATA
// a message lives in the memory resource it was given
VPE(resource)
{
    resource r;
    {
        const uint8_t b[4] = { u7("b"), u7("b"), u7("b"), u7("b") };
        vp_no_heap(true);
        sysex7 a{ 0x7D0000, &r };
        vp_check(a.data.get_allocator().resource() == &r, "a message uses the memory resource it was given");
        a.add_data(b, 4);
        vp_check(r.p.total == 1, "a message uses the memory resource it was given");
        sysex7 c{ 0x7D0000, size_t(20), &r };
        vp_check(c.data.get_allocator().resource() == &r, "a message with capacity uses the memory resource it was given");
        sysex7 d{ 0x7D0000, b, 4, &r };
        vp_check(d.data.get_allocator().resource() == &r, "a message with a buffer uses the memory resource it was given");
        sysex7 e{ 0x7D0000, { b[0], b[1] }, &r };
        vp_check(e.data.get_allocator().resource() == &r, "a message with a list uses the memory resource it was given");
        sysex7 f{ std::move(d) };
        vp_check(f.data.get_allocator().resource() == &r, "a moved message keeps its memory resource");
        vp_eq(f.data.size(), 4, "a moved message keeps its data");
        for (unsigned i = 0; i < 100; ++i)
            f.add_uint7(uint8_t(i));
        f.clear();
        c = a;
        vp_check(c.data.get_allocator().resource() == &r, "an assigned message keeps its memory resource");
        sysex::data_type v{ &r };
        v.push_back(b[0]);
        sysex7 g{ 0x7D0000, std::move(v), &r };
        vp_check(g.data.get_allocator().resource() == &r, "a message with a vector uses the memory resource it was given");
        vp_no_heap(false);
        const std::vector<uint8_t> w(b, b + 4);
        vp_no_heap(true);
        sysex7 h{ 0x7D0000, w, &r };
        vp_check(h.data.get_allocator().resource() == &r, "a message with a standard vector uses the memory resource it was given");
        vp_eq(h.data.size(), 4, "a message with a standard vector has its data");
        vp_no_heap(false);
    }
    vp_check(r.p.live == 0, "all sysex data is given back to the memory resource");
    vp_no_leak("all dynamic memory is released");
}
// two sources of memory: data that comes from one of them moves into a message of the other
VPE(two_resources)
{
    resource r, o;
    {
        const uint8_t b[4] = { u7("b"), u7("b"), u7("b"), u7("b") };
        const auto same = [&](const sysex& s, const char* what) {
            bool ok = s.data.size() == 4;
            for (unsigned i = 0; ok && i < 4; ++i)
                ok = s.data[i] == b[i];
            vp_check(ok, what);
        };
        vp_no_heap(true);
        sysex::data_type v(b, b + 4, &o), w(b, b + 4, &o);
        sysex7           a{ 0x7D0000, std::move(v), &r };
        vp_check(a.data.get_allocator().resource() == &r, "a message made from the data of another resource uses the one it was given");
        same(a, "a message made from the data of another resource has the data");
        sysex8 c{ 0x7D0000, std::move(w), &r };
        vp_check(c.data.get_allocator().resource() == &r, "a sysex8 message made from the data of another resource uses the one it was given");
        same(c, "a sysex8 message made from the data of another resource has the data");
        sysex7 d{ 0x7D0000, &o };
        d = a;
        vp_check(d.data.get_allocator().resource() == &o, "an assigned message keeps its memory resource");
        same(d, "an assigned message has the data");
        sysex7 e{ 0x7D0000, &o };
        e = std::move(a);
        vp_check(e.data.get_allocator().resource() == &o, "a move assigned message keeps its memory resource");
        same(e, "a move assigned message has the data");
        for (unsigned i = 0; i < 60; ++i)
        {
            c.data.push_back(uint8_t(i));
            e.add_uint7(uint8_t(i));
        }
        vp_no_heap(false);
    }
    vp_check(r.p.live == 0 && o.p.live == 0, "all sysex data is given back to the memory resource");
    vp_no_leak("all dynamic memory is released");
}
// messages that name no resource take the default one
VPE(default_resource)
{
    resource r;
    auto*    before = std::pmr::set_default_resource(&r);
    {
        const uint8_t              b[4] = { u7("b"), u7("b"), u7("b"), u7("b") };
        const std::vector<uint8_t> w(b, b + 4);
        vp_no_heap(true);
        sysex7 a, c{ 0x7D0000 }, d{ 0x7D0000, size_t(20) }, e{ 0x7D0000, b, 4 }, f{ 0x7D0000, { b[0], b[1] } }, g{ 0x7D0000, w };
        vp_check(a.data.get_allocator().resource() == &r && c.data.get_allocator().resource() == &r && d.data.get_allocator().resource() == &r &&
                     e.data.get_allocator().resource() == &r && f.data.get_allocator().resource() == &r && g.data.get_allocator().resource() == &r,
                 "a message without a memory resource uses the default one");
        sysex7 h{ e };
        vp_check(h.data.get_allocator().resource() == &r, "a copied message uses the default resource");
        a.add_data(b, 4);
        vp_no_heap(false);
    }
    std::pmr::set_default_resource(before);
    vp_check(r.p.total > 0 && r.p.live == 0, "all sysex data is given back to the memory resource");
    vp_no_leak("all dynamic memory is released");
}
#endif
