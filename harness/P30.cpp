// P30: property exchange headers are the JSON object the arguments describe
#include "vp.h"
#include <midi/capability_inquiry.h>
#include <string>
#include <string_view>
using namespace midi;
using namespace midi::ci;
using namespace midi::ci::property_exchange;

namespace {
// text of fixed length, any characters
struct any_text
{
    char     b[8];
    unsigned n;
    explicit any_text(unsigned len, const char* name)
      : n(len)
    {
        for (unsigned i = 0; i < len; ++i)
            b[i] = char(u8(name));
    }
    std::string_view view() const { return { b, n }; }
    // an optional minus and at least one digit
    bool number() const
    {
        const unsigned from = n && b[0] == '-' ? 1 : 0;
        if (from == n)
            return false;
        bool all = true;
        for (unsigned i = from; i < n; ++i)
            all = all && uint8_t(b[i] - '0') <= 9;
        return all;
    }
};
struct expect
{
    const std::string& s;
    size_t             pos = 0;
    bool               ok  = true;
    expect&            lit(std::string_view t)
    {
        for (char c : t)
        {
            ok = ok && pos < s.size() && s[pos] == c;
            ++pos;
        }
        return *this;
    }
    expect& quoted(std::string_view t) { return lit("\"").lit(t).lit("\""); }
    void    end(const char* rule) { vp_check(ok && pos == s.size(), rule); }
};
} // namespace

VPE(single)
{
    for (unsigned k : { 0u, 1u, 4u })
        for (unsigned v : { 0u, 1u, 4u, 8u })
        {
            const any_text a{ k, "key" }, b{ v, "value" };
            {
                const std::string r = make_rjson(a.view(), b.view());
                expect            e{ r };
                e.lit("{").quoted(a.view()).lit(":").quoted(b.view()).lit("}").end("one key with a string value");
            }
            {
                const std::string r = make_rjson(a.view(), b.view(), header_options{});
                expect            e{ r };
                e.lit("{").quoted(a.view()).lit(":").quoted(b.view()).lit("}").end("no options: same as without");
            }
        }
}
template<typename V>
static void options_of(unsigned n1, unsigned n2, V value, std::string_view text)
{
    const any_text       k{ 2, "key" }, o{ 1, "option" }, a{ n1, "a" }, b{ n2, "b" };
    const header_options opt{ { o.view(), a.view() }, { "zz", b.view() } };
    const bool           an = a.number(), bn = b.number();
    auto                 run = [&](bool x, bool y) {
        const std::string r = make_rjson(k.view(), value, opt);
        expect            e{ r };
        e.lit("{").quoted(k.view()).lit(":").lit(text).lit(",").quoted(o.view()).lit(":");
        if (x) e.lit(a.view());
        else e.quoted(a.view());
        e.lit(",\"zz\":");
        if (y) e.lit(b.view());
        else e.quoted(b.view());
        e.lit("}").end("options follow in order, numbers plain, everything else quoted");
    };
    if (an)
    {
        if (bn) run(true, true);
        else run(true, false);
    }
    else
    {
        if (bn) run(false, true);
        else run(false, false);
    }
}
#define OPT(i, j) \
    VPE(options_##i##_##j) { options_of(i, j, std::string_view{ "Res" }, "\"Res\""); } \
    VPE(status_options_##i##_##j) { options_of(i, j, 404, "404"); }
OPT(0, 1) OPT(1, 2) OPT(2, 0) OPT(3, 1) OPT(4, 0)
#ifdef VP_THOROUGH
OPT(1, 1) OPT(2, 2) OPT(3, 3) OPT(5, 1) OPT(1, 5) OPT(6, 0)
#endif

// decimal digits of numbers up to four digits, and the largest ones
template<typename Make>
static void number(Make&& make)
{
    const int      v   = int(vp_sym("value", 15, 8)) - 16384;
    vp_assume(v > -10000 && v < 10000);
    const bool     neg = v < 0;
    const uint32_t m   = neg ? uint32_t(0) - uint32_t(v) : uint32_t(v);
    uint32_t       p   = 1;
    for (unsigned digits = 1; digits <= 4; ++digits, p *= 10)
    {
        if ((digits == 1 || m >= p) && (digits == 4 || m < p * 10))
        {
            if (neg)
            {
                const std::string r = make(v);
                expect            e{ r };
                e.lit("{\"status\":-");
                uint32_t rest = m;
                char     d[10];
                for (unsigned i = digits; i-- > 0; rest /= 10) d[i] = char('0' + rest % 10);
                e.lit({ d, digits }).lit("}").end("negative number in decimal");
            }
            else
            {
                const std::string r = make(v);
                expect            e{ r };
                e.lit("{\"status\":");
                uint32_t rest = m;
                char     d[10];
                for (unsigned i = digits; i-- > 0; rest /= 10) d[i] = char('0' + rest % 10);
                e.lit({ d, digits }).lit("}").end("number in decimal");
            }
        }
    }
}
VPE(integer) { number([](int v) { return make_rjson(tags::status, v); }); }
VPE(integer_options) { number([](int v) { return make_rjson(tags::status, v, header_options{}); }); }
VPE(large_integers)
{
    const int              v[] = { 10000, 32768, 99999, 100000, 1000000, 16777216, 2147483647, -10000, -65536, -2147483647, int(0x80000000u), 999999, 9999999, 10000000, 99999999, 100000000, 999999999, 1000000000, -100000, -999999999, -1000000000 };
    const std::string_view t[] = { "10000", "32768", "99999", "100000", "1000000", "16777216", "2147483647", "-10000", "-65536", "-2147483647", "-2147483648", "999999", "9999999", "10000000", "99999999", "100000000", "999999999", "1000000000", "-100000", "-999999999", "-1000000000" };
    for (int i = 0; i < 21; ++i)
    {
        const std::string a = make_rjson("n", v[i]), b = make_rjson("n", v[i], header_options{ { "m", t[i] } });
        expect            e{ a }, f{ b };
        e.lit("{\"n\":").lit(t[i]).lit("}").end("number in decimal");
        f.lit("{\"n\":").lit(t[i]).lit(",\"m\":").lit(t[i]).lit("}").end("number in decimal");
    }
}
VPE(many_options)
{
    const any_text   a{ 2, "a" };
    std::string_view names[] = { "a", "bb", "ccc", "limit", "offset", "x" };
    header_options   opt;
    for (unsigned i = 0; i < 70; ++i)
        opt.emplace_back(names[i % 6], i % 5 == 4 ? std::string_view{ "-12345678901234567890" } : i % 5 == 3 ? std::string_view{ "17" } : std::string_view{ "1.5" });
    for (int k = 0; k < 2; ++k)
    {
        const std::string r = k ? make_rjson("k", a.view(), opt) : make_rjson("k", 7, opt);
        expect            e{ r };
        e.lit("{\"k\":");
        if (k) e.quoted(a.view());
        else e.lit("7");
        for (unsigned i = 0; i < 70; ++i)
        {
            e.lit(",").quoted(names[i % 6]).lit(":");
            if (i % 5 == 4) e.lit("-12345678901234567890");
            else if (i % 5 == 3) e.lit("17");
            else e.quoted("1.5");
        }
        e.lit("}").end("any number of options");
    }
}
VPE(long_texts)
{
    for (unsigned n : { 15u, 16u, 127u, 255u, 256u, 300u, 5000u })
    {
        const std::string v(n, 'v'), d(n, '4');
        const std::string r = make_rjson(v, v, header_options{ { v, d }, { d, v } }), s = make_rjson(v, v), q = make_rjson(v, 5);
        expect            e{ r }, f{ s }, g{ q };
        e.lit("{").quoted(v).lit(":").quoted(v).lit(",").quoted(v).lit(":").lit(d).lit(",").quoted(d).lit(":").quoted(v).lit("}").end("long names and values");
        f.lit("{").quoted(v).lit(":").quoted(v).lit("}").end("long names and values");
        g.lit("{").quoted(v).lit(":5}").end("long names and values");
    }
}
