// P08: value arithmetic saturates and never wraps; float conversions clamp
#include "vp.h"
#include <limits>
#include <midi/types.h>
using namespace midi;

// n-bit saturating sum, decided from carry and sign alone
static int32_t sat_s32(int32_t a, int32_t b)
{
    const uint32_t s  = uint32_t(a) + uint32_t(b);
    const bool     an = a < 0, bn = b < 0, sn = int32_t(s) < 0;
    if (an == bn && sn != an)
        return an ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int32_t>::max();
    return int32_t(s);
}
static uint32_t sat_u32(uint32_t a, int32_t b)
{
    const uint32_t s = a + uint32_t(b);
    if (b >= 0)
        return s < a ? ~0u : s;
    return s > a ? 0u : s; // borrow
}
VPE(pitch_increment_add)
{
    const int32_t         a = int32_t(u32("a")), b = int32_t(u32("b"));
    const pitch_increment x{ a }, y{ b };
    vp_eq(uint32_t((x + y).value), uint32_t(sat_s32(a, b)), "pitch_increment + saturates at both ends");
    auto z = x;
    z += y;
    vp_eq(uint32_t(z.value), uint32_t(sat_s32(a, b)), "pitch_increment += saturates at both ends");
    vp_eq(uint32_t(x.value), uint32_t(a), "pitch_increment + leaves its operand");
    vp_eq(x == y, a == b, "pitch_increment equality");
    vp_eq(x != y, a != b, "pitch_increment inequality");
}
VPE(pitch_add)
{
    const uint32_t        a = u32("a");
    const int32_t         b = int32_t(u32("b"));
    const pitch_7_25      x{ a };
    const pitch_increment y{ b };
    vp_eq((x + y).value, sat_u32(a, b), "pitch_7_25 + saturates at both ends");
    auto z = x;
    z += y;
    vp_eq(z.value, sat_u32(a, b), "pitch_7_25 += saturates at both ends");
}
VPE(controller_add)
{
    const uint32_t             a = u32("a");
    const int32_t              b = int32_t(u32("b"));
    const controller_value     x{ a };
    const controller_increment y{ b };
    vp_eq((x + y).value, sat_u32(a, b), "controller_value + saturates at both ends");
    auto z = x;
    z += y;
    vp_eq(z.value, sat_u32(a, b), "controller_value += saturates at both ends");
    vp_eq(uint32_t(y.value), uint32_t(b), "controller_increment raw value");
}
VPE(equality)
{
    const uint32_t a = u32("a"), b = u32("b");
    const uint16_t c = u16("c"), d = u16("d");
    vp_eq(pitch_7_25{ a } == pitch_7_25{ b }, a == b, "pitch_7_25 equality");
    vp_eq(pitch_7_25{ a } != pitch_7_25{ b }, a != b, "pitch_7_25 inequality");
    vp_eq(pitch_bend{ a } == pitch_bend{ b }, a == b, "pitch_bend equality");
    vp_eq(pitch_bend{ a } != pitch_bend{ b }, a != b, "pitch_bend inequality");
    vp_eq(controller_value{ a } == controller_value{ b }, a == b, "controller_value equality");
    vp_eq(controller_value{ a } != controller_value{ b }, a != b, "controller_value inequality");
    vp_eq(controller_increment{ int32_t(a) } == controller_increment{ int32_t(b) }, a == b, "controller_increment equality");
    vp_eq(controller_increment{ int32_t(a) } != controller_increment{ int32_t(b) }, a != b, "controller_increment inequality");
    vp_eq(velocity{ c } == velocity{ d }, c == d, "velocity equality");
    vp_eq(velocity{ c } != velocity{ d }, c != d, "velocity inequality");
    vp_eq(pitch_7_9{ c } == pitch_7_9{ d }, c == d, "pitch_7_9 equality");
    vp_eq(pitch_7_9{ c } != pitch_7_9{ d }, c != d, "pitch_7_9 inequality");
}
// pitch bend times sensitivity: exact for every bend and every whole number of semitones
static void semitones(unsigned lo, unsigned hi)
{
    const uint32_t b = u32("bend");
    for (unsigned n = lo; n < hi; ++n)
    {
        const auto r = pitch_bend{ b } * pitch_bend_sensitivity{ note_nr_t(n) };
        // (b - 2^31) * n * 2^25 / 2^31 = (b - 2^31) * n / 64, rounded towards zero, clamped
        const int64_t  p = (int64_t(b) - int64_t(0x80000000)) * int64_t(n);
        const int64_t  q = p < 0 ? -((-p) >> 6) : p >> 6;
        const int64_t  c = q < -int64_t(0x80000000) ? -int64_t(0x80000000) : q > 0x7FFFFFFF ? 0x7FFFFFFF : q;
        vp_eq(uint32_t(r.value), uint32_t(c), "pitch bend times whole semitones");
        const auto s = pitch_bend_sensitivity{ note_nr_t(n) } * pitch_bend{ b };
        vp_eq(uint32_t(s.value), uint32_t(r.value), "pitch bend times sensitivity commutes");
    }
}
VPE(bend_0) { semitones(0, 16); }
VPE(bend_1) { semitones(16, 32); }
VPE(bend_2) { semitones(32, 48); }
VPE(bend_3) { semitones(48, 64); }
VPE(bend_4) { semitones(64, 96); }
VPE(bend_5) { semitones(96, 128); }
VPE(bend_ends)
{
    const uint32_t s = u32("sensitivity");
    const pitch_bend_sensitivity k{ s };
    vp_eq(uint32_t((pitch_bend{} * k).value), 0, "centre bend does not move the pitch");
    vp_eq(uint32_t((pitch_bend{ uint32_t(0) } * k).value), s > 0x80000000u ? 0x80000000u : uint32_t(0) - s, "full bend down moves by the sensitivity, clamped");
    const int64_t up = (int64_t(s) * 0x7FFFFFFF) >> 31;
    vp_eq(uint32_t((pitch_bend{ 0xFFFFFFFFu } * k).value), up > 0x7FFFFFFF ? 0x7FFFFFFFu : uint32_t(up), "full bend up moves by the sensitivity, clamped");
    vp_eq(uint32_t((pitch_bend{ 0xC0000000u } * k).value), s >> 1, "half bend up moves by half the sensitivity");
}
// float conversions: clamped outside the range, exact at the ends (the rounding in between is not decided here)
template<typename F>
static void floats(F f)
{
    if (f <= F(0))
    {
        vp_eq(velocity{ f }.value, 0, "velocity from float clamps at 0");
        vp_eq(controller_value{ f }.value, 0, "controller_value from float clamps at 0");
        vp_eq(pitch_7_9{ f }.value, 0, "pitch_7_9 from float clamps at 0");
        vp_eq(pitch_7_25{ f }.value, 0, "pitch_7_25 from float clamps at 0");
    }
    if (f >= F(1))
    {
        vp_eq(velocity{ f }.value, 0xFFFF, "velocity from float clamps at 1");
        vp_eq(controller_value{ f }.value, 0xFFFFFFFFu, "controller_value from float clamps at 1");
    }
    if (f >= F(128))
    {
        vp_eq(pitch_7_9{ f }.value, 0xFFFF, "pitch_7_9 from float clamps at 128");
        vp_eq(pitch_7_25{ f }.value, 0xFFFFFFFFu, "pitch_7_25 from float clamps at 128");
    }
    if (f >= F(64))
        vp_eq(uint32_t(pitch_increment{ f }.value), 0x7FFFFFFFu, "pitch_increment from float clamps at 64");
    if (f <= F(-64))
        vp_eq(uint32_t(pitch_increment{ f }.value), 0x80000000u, "pitch_increment from float clamps at -64");
}
VPE(float_clamp)
{
    union { uint32_t i; float f; } u;
    u.i = u32("float");
    floats<float>(u.f);
}
VPE(double_clamp)
{
    union { uint64_t i; double f; } u;
    u.i = sym<uint64_t>("double");
    floats<double>(u.f);
}
VPE(float_points)
{
    vp_eq(velocity{ 0.f }.value, 0, "velocity 0.0");
    vp_eq(velocity{ 0.5f }.value, 0x8000, "velocity 0.5 is the centre");
    vp_eq(velocity{ 1.f }.value, 0xFFFF, "velocity 1.0");
    vp_eq(velocity{ 0.5 }.value, 0x8000, "velocity 0.5 is the centre");
    vp_eq(controller_value{ 0.5f }.value, 0x80000000u, "controller_value 0.5 is the centre");
    vp_eq(controller_value{ 0.5 }.value, 0x80000000u, "controller_value 0.5 is the centre");
    vp_eq(pitch_bend{ -1.f }.value, 0, "pitch_bend -1.0");
    vp_eq(pitch_bend{ 0.f }.value, 0x80000000u, "pitch_bend 0.0 is the centre");
    vp_eq(pitch_bend{ 1.f }.value, 0xFFFFFFFFu, "pitch_bend 1.0");
    vp_eq(pitch_bend{ -1. }.value, 0, "pitch_bend -1.0");
    vp_eq(pitch_bend{ 0. }.value, 0x80000000u, "pitch_bend 0.0 is the centre");
    vp_eq(pitch_bend{ 1. }.value, 0xFFFFFFFFu, "pitch_bend 1.0");
    vp_check(velocity{ uint16_t(0) }.as_double() == 0. && velocity{ uint16_t(0x8000) }.as_double() == .5 && velocity{ uint16_t(0xFFFF) }.as_double() == 1., "velocity as_double at the ends and the centre");
    vp_check(velocity{ uint16_t(0) }.as_float() == 0.f && velocity{ uint16_t(0x8000) }.as_float() == .5f && velocity{ uint16_t(0xFFFF) }.as_float() == 1.f, "velocity as_float at the ends and the centre");
    vp_check(controller_value{ uint32_t(0) }.as_double() == 0. && controller_value{ 0x80000000u }.as_double() == .5 && controller_value{ 0xFFFFFFFFu }.as_double() == 1., "controller_value as_double at the ends and the centre");
    vp_check(controller_value{ uint32_t(0) }.as_float() == 0.f && controller_value{ 0x80000000u }.as_float() == .5f && controller_value{ 0xFFFFFFFFu }.as_float() == 1.f, "controller_value as_float at the ends and the centre");
    vp_check(pitch_bend{ uint32_t(0) }.as_double() == -1. && pitch_bend{ 0x80000000u }.as_double() == 0. && pitch_bend{ 0xFFFFFFFFu }.as_double() == 1., "pitch_bend as_double at the ends and the centre");
    vp_check(pitch_bend{ uint32_t(0) }.as_float() == -1.f && pitch_bend{ 0x80000000u }.as_float() == 0.f && pitch_bend{ 0xFFFFFFFFu }.as_float() == 1.f, "pitch_bend as_float at the ends and the centre");
    vp_eq(uint32_t(pitch_increment{ -1. }.value), uint32_t(-(1 << 25)), "pitch_increment -1.0");
    vp_eq(uint32_t(pitch_increment{ 1. }.value), uint32_t(1 << 25), "pitch_increment 1.0");
    vp_eq(uint32_t(pitch_increment{ -1.f }.value), uint32_t(-(1 << 25)), "pitch_increment -1.0");
    vp_eq(uint32_t(pitch_increment{ 1.f }.value), uint32_t(1 << 25), "pitch_increment 1.0");
    vp_eq(uint32_t(pitch_increment{ -63.99999999999 }.value), 0x80000000u, "pitch_increment just above -64");
    vp_eq(uint32_t(pitch_increment{ 63.99999999999 }.value), 0x7FFFFFFFu, "pitch_increment just below 64");
    vp_eq(uint32_t(pitch_increment{ -63.999998f }.value), uint32_t(-2147483520), "pitch_increment float just above -64");
}
// every whole note survives the float conversions
VPE(float_notes)
{
    for (unsigned n = 0; n < 128; ++n)
    {
        vp_eq(pitch_7_9{ float(n) }.value, n << 9, "pitch_7_9 from a whole note number");
        vp_eq(pitch_7_9{ double(n) }.value, n << 9, "pitch_7_9 from a whole note number");
        vp_eq(pitch_7_25{ float(n) }.value, n << 25, "pitch_7_25 from a whole note number");
        vp_eq(pitch_7_25{ double(n) }.value, n << 25, "pitch_7_25 from a whole note number");
        vp_check(pitch_7_9{ note_nr_t(n) }.as_double() == double(n) && pitch_7_9{ note_nr_t(n) }.as_float() == float(n), "pitch_7_9 of a whole note reads back");
        vp_check(pitch_7_25{ note_nr_t(n) }.as_double() == double(n) && pitch_7_25{ note_nr_t(n) }.as_float() == float(n), "pitch_7_25 of a whole note reads back");
    }
}
VPE(detune)
{
    const uint32_t a = u32("a");
    for (unsigned n = 0; n < 128; ++n)
    {
        const uint32_t d = n << 25;
        vp_eq((pitch_7_25{ a } + double(n)).value, a + d < a ? ~0u : a + d, "pitch_7_25 + whole semitones saturates");
        vp_eq((pitch_7_25{ a } + float(n)).value, a + d < a ? ~0u : a + d, "pitch_7_25 + whole semitones saturates");
        if (n)
        {
            vp_eq((pitch_7_25{ a } + -double(n)).value, a < d ? 0u : a - d, "pitch_7_25 - whole semitones saturates");
            vp_eq((pitch_7_25{ a } + -float(n)).value, a < d ? 0u : a - d, "pitch_7_25 - whole semitones saturates");
        }
    }
}
// all 16 bit values survive the float conversions
VPE(velocity_float_round_trip_lo) { for (unsigned v = 0; v < 128; ++v) vp_eq(velocity{ velocity{ uint7_t(v) }.as_double() }.as_uint7(), v, "7 bit velocity survives the conversion to float and back"); }
