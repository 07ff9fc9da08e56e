// P29: conversions between float / double and the fixed point value types
#include "vp.h"
#include <cstring>
#include <initializer_list>
#include <limits>
#include <midi/types.h>
using namespace midi;

static float  as_f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double as_d(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

// f * 2^k for a positive number given by its bits, rounded down; the result is less than 2^40
static uint64_t scaled_down(uint32_t u, int k)
{
    const int      e = int((u >> 23) & 0xFF) - 127 - 23 + k; // f * 2^k = m * 2^e
    const uint64_t m = (u & 0x7FFFFF) | ((u >> 23) & 0xFF ? 0x800000 : 0);
    return e >= 0 ? m << (e & 31) : e > -32 ? m >> (-e & 31) : 0;
}
static uint64_t scaled_down(uint64_t u, int k)
{
    const int      e = int((u >> 52) & 0x7FF) - 1023 - 52 + k;
    const uint64_t m = (u & 0xFFFFFFFFFFFFFull) | ((u >> 52) & 0x7FF ? 1ull << 52 : 0);
    return e > 0 ? m << (e & 31) : e > -64 ? m >> (-e & 63) : 0;
}
template<typename U>
static uint64_t scaled_nearest(U u, int k) // ties away from zero
{
    return (scaled_down(u, k + 1) + 1) >> 1;
}
template<typename U>
static uint64_t cut(uint64_t v, U max) { return v > max ? max : v; }

#define FLOATS(name, body) \
    VPE(float_##name)      \
    {                      \
        const uint32_t u = u32("float"); \
        const float    f = as_f(u);      \
        body;                            \
    }
#define DOUBLES(name, body) \
    VPE(double_##name)      \
    {                       \
        const uint64_t u = sym<uint64_t>("double"); \
        const double   f = as_d(u);      \
        body;                            \
    }
#define BOTH(name, body) FLOATS(name, body) DOUBLES(name, body)

BOTH(pitch_7_9, if (f > 0 && f < 128) vp_eq(pitch_7_9{ f }.value, cut(scaled_nearest(u, 9), 0xFFFFu), "pitch_7_9 is the nearest 1/512 semitone"))
BOTH(pitch_7_25, if (f > 0 && f < 128) vp_eq(pitch_7_25{ f }.value, cut(scaled_nearest(u, 25), 0xFFFFFFFFu), "pitch_7_25 is the nearest 2^-25 semitone"))
BOTH(pitch_increment_up, if (f > 0 && f < 64) vp_eq(uint32_t(pitch_increment{ f }.value), cut(scaled_nearest(u, 25), 0x7FFFFFFFu), "pitch_increment is the nearest 2^-25 semitone"))
BOTH(pitch_increment_down, if (f < 0 && f > -64) vp_eq(uint32_t(pitch_increment{ f }.value), uint32_t(0) - uint32_t(scaled_nearest(u, 25)), "pitch_increment is the nearest 2^-25 semitone"))
// a pitch moved by a number of semitones: the number to the nearest 2^-25, the sum cut off at the ends
template<typename U, typename F>
static void moved(U u, F f, std::initializer_list<uint32_t> from, const char* what)
{
    const U        magnitude = u & (U(-1) >> 1);
    const F        a         = f < 0 ? -f : f;
    const uint64_t step      = a >= 128 ? 0xFFFFFFFFu : cut(scaled_nearest(magnitude, 25), 0xFFFFFFFFu);
    for (const uint32_t v : from)
    {
        const uint64_t up = cut(v + step, 0xFFFFFFFFu), down = v > step ? v - step : 0;
        vp_eq((pitch_7_25{ v } + f).value, f < 0 ? down : up, what);
    }
}
BOTH(moved_pitch, if (f == f && f != 0) moved(u, f, { 0u, 0x78000000u, 0xFFFFFFFFu }, "a pitch is moved by the nearest 2^-25 semitone and stays in range"))
VPE(pitch_moved_by)
{
    const uint32_t v = u32("pitch");
    for (const float f : { 0.f, -0.f, 1e-9f, 1.5f / 33554432.f, -1.5f / 33554432.f, 0.01f, -0.01f, 0.3333333f, -0.7f, 1.f, -1.f, 12.f, -12.f, 63.99999f, 127.99999f, -127.99999f, 128.f, -128.f, 1e30f, -1e30f })
    {
        moved(bits(f), f, { v }, "any pitch is moved by the nearest 2^-25 semitone and stays in range");
        moved(bits(double(f)), double(f), { v }, "any pitch is moved by the nearest 2^-25 semitone and stays in range");
    }
}
BOTH(velocity_low, if (f > 0 && f <= 0.5f) vp_eq(velocity{ f }.value, scaled_down(u, 16), "velocity in the lower half is the value rounded down"))
BOTH(controller_low, if (f > 0 && f <= 0.5f) vp_eq(controller_value{ f }.value, scaled_down(u, 32), "controller value in the lower half is the value rounded down"))
FLOATS(velocity_high, if (f > 0.5f && f < 1) { const uint64_t m = u & 0x7FFFFF; vp_eq(velocity{ f }.value, 0x8000 + (((m << 16) - m) >> 24), "velocity in the upper half scales to the maximum"); })
FLOATS(controller_high, if (f > 0.5f && f < 1) { const uint64_t m = u & 0x7FFFFF; vp_eq(controller_value{ f }.value, 0x80000000u + (((m << 32) - m) >> 24), "controller value in the upper half scales to the maximum"); })
DOUBLES(velocity_high, if (f > 0.5f && f < 1) { const auto v = velocity{ f }.value; vp_check(v >= 0x8000, "velocity in the upper half is between the centre and the maximum"); })
DOUBLES(controller_high, if (f > 0.5f && f < 1) { const auto v = controller_value{ f }.value; vp_check(v >= 0x80000000u, "controller value in the upper half is between the centre and the maximum"); })
FLOATS(bend, if (f > -1 && f < 1) {
    const auto v = pitch_bend{ f }.value;
    vp_check(f < 0 ? v <= 0x80000000u : v >= 0x80000000u, "pitch_bend keeps the sign"); })
FLOATS(order, if (f > -130 && f < 130 && u != 0x7FFFFFFF && u != 0x80000000u) {
    const float n = as_f(u + 1);
    const bool  up = !(u >> 31);
#define ORD(T) vp_check(up ? T{ f }.value <= T{ n }.value : T{ n }.value <= T{ f }.value, #T " conversion keeps the order")
    ORD(velocity); ORD(controller_value); ORD(pitch_7_9); ORD(pitch_7_25); ORD(pitch_increment); ORD(pitch_bend); })

VPE(velocity_out)
{
    const uint16_t v = u16("velocity");
    const double   d = velocity{ v }.as_double();
    const float    f = velocity{ v }.as_float();
    vp_check(d >= 0 && d <= 1 && f >= 0 && f <= 1, "velocity as float is inside [0, 1]");
    vp_eq(velocity{ d }.value, v, "velocity survives the conversion to double");
    vp_eq(velocity{ f }.value, v, "velocity survives the conversion to float");
}
VPE(pitch_7_9_out)
{
    const uint16_t v = u16("pitch");
    const double   d = pitch_7_9{ v }.as_double();
    const float    f = pitch_7_9{ v }.as_float();
    vp_check(d * 512. == double(v) && f * 512.f == float(v), "pitch_7_9 as float is exact");
    vp_eq(pitch_7_9{ d }.value, v, "pitch_7_9 survives the conversion to double");
    vp_eq(pitch_7_9{ f }.value, v, "pitch_7_9 survives the conversion to float");
}
VPE(pitch_7_25_out)
{
    const uint32_t v = u32("pitch");
    const double   d = pitch_7_25{ v }.as_double();
    vp_check(d * 33554432. == double(v), "pitch_7_25 as double is exact");
    vp_eq(pitch_7_25{ d }.value, v, "pitch_7_25 survives the conversion to double");
    vp_eq(bits(pitch_7_25{ v }.as_float()), bits(float(d)), "pitch_7_25 as float is the nearest float");
}
VPE(controller_out)
{
    const uint32_t v = u32("value");
    if (v <= 0x80000000u)
        vp_eq(controller_value{ controller_value{ v }.as_double() }.value, v, "controller value survives the conversion to double");
    else
        vp_eq(controller_value{ controller_value{ v }.as_double() }.value, v, "controller value survives the conversion to double");
}
VPE(bend_out)
{
    const uint32_t v = u32("value");
    if (v <= 0x80000000u)
        vp_eq(pitch_bend{ pitch_bend{ v }.as_double() }.value, v, "pitch bend down survives the conversion to double");
    else
    {
        const uint32_t r = pitch_bend{ pitch_bend{ v }.as_double() }.value;
        vp_check(r == v || r + 1 == v, "pitch bend up survives the conversion to double within one step");
    }
}

// the double conversions agree with the float conversions on every float
FLOATS(agrees, if (f > -200 && f < 200) {
    const double d = f;
    vp_eq(velocity{ d }.value, velocity{ f }.value, "velocity from double agrees with float");
    vp_eq(controller_value{ d }.value, controller_value{ f }.value, "controller value from double agrees with float");
    vp_eq(pitch_7_9{ d }.value, pitch_7_9{ f }.value, "pitch_7_9 from double agrees with float");
    vp_eq(pitch_7_25{ d }.value, pitch_7_25{ f }.value, "pitch_7_25 from double agrees with float");
    vp_eq(uint32_t(pitch_increment{ d }.value), uint32_t(pitch_increment{ f }.value), "pitch_increment from double agrees with float"); })
DOUBLES(order, if (f > -130 && f < 130 && u != 0x7FFFFFFFFFFFFFFFull && u != 0x8000000000000000ull) {
    const double n = as_d(u + 1);
    const bool   up = !(u >> 63);
    ORD(pitch_7_9); ORD(pitch_7_25); ORD(pitch_increment); })
// values in order give numbers in order
VPE(out_order)
{
    const uint32_t a = sym<uint32_t>("a", 4), b = sym<uint32_t>("b", 4);
    constexpr uint32_t c = 0x80000000u;
    if (a < b)
    {
        if (b <= c)
        {
            vp_check(controller_value{ a }.as_double() < controller_value{ b }.as_double(), "controller value as double keeps the order");
            vp_check(controller_value{ a }.as_float() <= controller_value{ b }.as_float(), "controller value as float keeps the order");
        }
        else if (a > c)
        {
            vp_check(controller_value{ a }.as_double() < controller_value{ b }.as_double(), "controller value as double keeps the order");
            vp_check(controller_value{ a }.as_float() <= controller_value{ b }.as_float(), "controller value as float keeps the order");
        }
    }
}
VPE(bend_order)
{
    const uint32_t a = sym<uint32_t>("a", 4), b = sym<uint32_t>("b", 4);
    constexpr uint32_t c = 0x80000000u;
    if (a < b)
    {
        if (b < c)
        {
            vp_check(pitch_bend{ a }.as_double() < pitch_bend{ b }.as_double(), "pitch bend as double keeps the order");
            vp_check(pitch_bend{ a }.as_float() <= pitch_bend{ b }.as_float(), "pitch bend as float keeps the order");
        }
        else if (a >= c)
        {
            vp_check(pitch_bend{ a }.as_double() < pitch_bend{ b }.as_double(), "pitch bend as double keeps the order");
            vp_check(pitch_bend{ a }.as_float() <= pitch_bend{ b }.as_float(), "pitch bend as float keeps the order");
        }
    }
}
VPE(out_range)
{
    const uint32_t v = u32("value");
    if (v < 0x80000000u)
    {
        const double d = controller_value{ v }.as_double(), p = pitch_bend{ v }.as_double();
        const float  f = controller_value{ v }.as_float(), q = pitch_bend{ v }.as_float();
        vp_check(d >= 0 && d < .5 && f >= 0 && f <= .5f, "controller value below the centre is below 0.5");
        vp_check(p >= -1 && p < 0 && q >= -1 && q < 0, "pitch bend below the centre is negative");
        vp_check(d * 4294967296. == double(v), "controller value below the centre is exact");
        vp_check(p * 2147483648. == double(v) - 2147483648., "pitch bend below the centre is exact");
    }
    else
    {
        const double p = pitch_bend{ v }.as_double();
        const float  q = pitch_bend{ v }.as_float();
        vp_check(p >= 0 && p <= 1 && q >= 0 && q <= 1, "pitch bend above the centre is positive");
        if (v > 0x80000000u)
        {
            const double d = controller_value{ v }.as_double();
            const float  f = controller_value{ v }.as_float();
            vp_check(d > .5 && d <= 1 && f >= .5f && f <= 1, "controller value above the centre is above 0.5");
            vp_check(p > 0 && q > 0, "pitch bend above the centre is positive");
        }
    }
}
VPE(velocity_order)
{
    const uint16_t a = u16("velocity"), b = uint16_t(a + 1);
    if (a < b)
    {
        vp_check(velocity{ a }.as_double() < velocity{ b }.as_double(), "velocity as double keeps the order");
        vp_check(velocity{ a }.as_float() < velocity{ b }.as_float(), "velocity as float keeps the order");
    }
}
VPE(pitch_order)
{
    const uint32_t a = sym<uint32_t>("a", 4), b = sym<uint32_t>("b", 4);
    if (a < b)
    {
        vp_check(pitch_7_25{ a }.as_double() < pitch_7_25{ b }.as_double(), "pitch_7_25 as double keeps the order");
        vp_check(pitch_7_25{ a }.as_float() <= pitch_7_25{ b }.as_float(), "pitch_7_25 as float keeps the order");
    }
    const uint16_t c = uint16_t(a), d = uint16_t(b);
    if (c < d)
    {
        vp_check(pitch_7_9{ c }.as_double() < pitch_7_9{ d }.as_double(), "pitch_7_9 as double keeps the order");
        vp_check(pitch_7_9{ c }.as_float() < pitch_7_9{ d }.as_float(), "pitch_7_9 as float keeps the order");
    }
}
VPE(as_float_is_nearest)
{
    const uint32_t v = u32("value");
    if (v < 0x80000000u)
    {
        vp_eq(bits(controller_value{ v }.as_float()), bits(float(controller_value{ v }.as_double())), "controller value as float is the double's nearest float");
        vp_eq(bits(pitch_bend{ v }.as_float()), bits(float(pitch_bend{ v }.as_double())), "pitch bend as float is the double's nearest float");
    }
    else
        vp_eq(bits(pitch_bend{ v }.as_float()), bits(float(pitch_bend{ v }.as_double())), "pitch bend as float is the double's nearest float");
    if (v > 0x80000000u)
        vp_eq(bits(controller_value{ v }.as_float()), bits(float(controller_value{ v }.as_double())), "controller value as float is the double's nearest float");
    const uint16_t w = uint16_t(v);
    vp_eq(bits(velocity{ w }.as_float()), bits(float(velocity{ w }.as_double())), "velocity as float is the double's nearest float");
}
// any bend with any sensitivity: the exact product divided by 2^31, rounded towards zero, clamped
VPE(bend_any)
{
    const uint32_t b = u32("bend"), s = u32("sensitivity");
    const auto     r = pitch_bend{ b } * pitch_bend_sensitivity{ s };
    const int64_t  p = (int64_t(b) - int64_t(0x80000000)) * int64_t(s);
    const int64_t  q = p / 2147483648;
    const int64_t  c = q < -int64_t(0x80000000) ? -int64_t(0x80000000) : q > 0x7FFFFFFF ? 0x7FFFFFFF : q;
    vp_eq(uint32_t(r.value), uint32_t(c), "pitch bend times sensitivity is the exact product");
}
// the same product at fixed points (decided by constant propagation however it is computed)
VPE(bend_points)
{
    const uint32_t bs[] = { 0, 1, 0x12345678, 0x40000000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xC0000000, 0xDEADBEEF, 0xFFFFFFFE, 0xFFFFFFFF };
    const uint32_t ss[] = { 0, 1, 2, 0x01FFFFFF, 0x02000000, 0x04000000, 0x18000000, 0x33333333, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF };
    for (uint32_t b : bs)
        for (uint32_t s : ss)
        {
            const bool     down = b < 0x80000000u;
            const uint64_t m    = (uint64_t(down ? 0x80000000u - b : b - 0x80000000u) * s) >> 31;
            const uint32_t v    = down ? (m > 0x80000000u ? 0x80000000u : uint32_t(0) - uint32_t(m)) : m > 0x7FFFFFFF ? 0x7FFFFFFF : uint32_t(m);
            vp_eq(uint32_t((pitch_bend{ b } * pitch_bend_sensitivity{ s }).value), v, "pitch bend times sensitivity is the exact product");
            vp_eq(uint32_t((pitch_bend_sensitivity{ s } * pitch_bend{ b }).value), v, "pitch bend times sensitivity commutes");
        }
}
