// P07: up and down scaling of values between 7, 14, 16 and 32 bits
#include "scale.h"
#include "vp.h"
#include <midi/types.h>
using namespace midi;

VPE(up_fixed)
{
    const uint8_t  a = u7("v7");
    const uint16_t b = u14("v14");
    vp_eq(upsample_7_to_16bit(a), scale_up(a, 7, 16), "7 to 16 bit: shift up to the centre, repeat the lower bits above");
    vp_eq(upsample_7_to_32bit(a), scale_up(a, 7, 32), "7 to 32 bit: shift up to the centre, repeat the lower bits above");
    vp_eq(upsample_14_to_32bit(b), scale_up(b, 14, 32), "14 to 32 bit: shift up to the centre, repeat the lower bits above");
    vp_eq(downsample_16_to_7bit(upsample_7_to_16bit(a)), a, "7 to 16 to 7 bit is the identity");
    vp_eq(downsample_32_to_7bit(upsample_7_to_32bit(a)), a, "7 to 32 to 7 bit is the identity");
    vp_eq(downsample_32_to_14bit(upsample_14_to_32bit(b)), b, "14 to 32 to 14 bit is the identity");
    vp_check(upsample_7_to_16bit(0) == 0 && upsample_7_to_16bit(64) == 0x8000 && upsample_7_to_16bit(127) == 0xFFFF, "7 to 16 bit: minimum, centre and maximum");
    vp_check(upsample_7_to_32bit(0) == 0 && upsample_7_to_32bit(64) == 0x80000000u && upsample_7_to_32bit(127) == 0xFFFFFFFFu, "7 to 32 bit: minimum, centre and maximum");
    vp_check(upsample_14_to_32bit(0) == 0 && upsample_14_to_32bit(8192) == 0x80000000u && upsample_14_to_32bit(16383) == 0xFFFFFFFFu, "14 to 32 bit: minimum, centre and maximum");
}
VPE(down_fixed)
{
    const uint16_t a = u16("v16");
    const uint32_t b = u32("v32");
    vp_eq(downsample_16_to_7bit(a), a >> 9, "16 to 7 bit keeps the upper bits");
    vp_eq(downsample_32_to_7bit(b), b >> 25, "32 to 7 bit keeps the upper bits");
    vp_eq(downsample_32_to_14bit(b), b >> 18, "32 to 14 bit keeps the upper bits");
}
VPE(monotone)
{
    const uint8_t  a = u7("a"), b = u7("b");
    const uint16_t c = u14("c"), d = u14("d");
    const uint32_t e = u32("e"), f = u32("f");
    if (a < b)
    {
        vp_check(upsample_7_to_16bit(a) < upsample_7_to_16bit(b), "7 to 16 bit is strictly monotonic");
        vp_check(upsample_7_to_32bit(a) < upsample_7_to_32bit(b), "7 to 32 bit is strictly monotonic");
    }
    if (c < d)
        vp_check(upsample_14_to_32bit(c) < upsample_14_to_32bit(d), "14 to 32 bit is strictly monotonic");
    if (e <= f)
    {
        vp_check(downsample_32_to_7bit(e) <= downsample_32_to_7bit(f), "32 to 7 bit is monotonic");
        vp_check(downsample_32_to_14bit(e) <= downsample_32_to_14bit(f), "32 to 14 bit is monotonic");
    }
}
// the general function, all width pairs 2 <= x < y <= 32; values must fit in x bits
static void widths(unsigned lo, unsigned hi)
{
    for (unsigned x = lo; x <= hi; ++x)
    {
        const uint32_t v = uint32_t(vp_sym("v", x, 8));
        for (unsigned y = x + 1; y <= 32; ++y)
        {
            const uint32_t r = upsample_x_to_ybit(v, uint8_t(x), uint8_t(y));
            vp_eq(r, scale_up(v, x, y), "x to y bit: shift up to the centre, repeat the lower bits above");
            vp_eq(r >> (y - x), v, "x to y bit: scaling down again is the identity");
        }
        const uint32_t m = x == 32 ? ~0u : (1u << x) - 1;
        for (unsigned y = x + 1; y <= 32; ++y)
        {
            vp_eq(upsample_x_to_ybit(m, uint8_t(x), uint8_t(y)), y == 32 ? ~0u : (1u << y) - 1, "x to y bit: maximum maps to maximum");
            vp_eq(upsample_x_to_ybit(1u << (x - 1), uint8_t(x), uint8_t(y)), 1u << (y - 1), "x to y bit: centre maps to centre");
            vp_eq(upsample_x_to_ybit(0, uint8_t(x), uint8_t(y)), 0, "x to y bit: zero maps to zero");
        }
    }
}
VPE(widths_2_6) { widths(2, 6); }
VPE(widths_7_10) { widths(7, 10); }
VPE(widths_11_14) { widths(11, 14); }
VPE(widths_15_20) { widths(15, 20); }
VPE(widths_21_26) { widths(21, 26); }
VPE(widths_27_31) { widths(27, 31); }
VPE(agree)
{
    const uint8_t  a = u7("v7");
    const uint16_t b = u14("v14");
    vp_eq(upsample_7_to_16bit(a), upsample_x_to_ybit(a, 7, 16), "7 to 16 bit agrees with the general function");
    vp_eq(upsample_7_to_32bit(a), upsample_x_to_ybit(a, 7, 32), "7 to 32 bit agrees with the general function");
    vp_eq(upsample_14_to_32bit(b), upsample_x_to_ybit(b, 14, 32), "14 to 32 bit agrees with the general function");
}
VPE(types)
{
    const uint8_t  a = u7("v7");
    const uint16_t b = u14("v14"), c = u16("v16");
    const uint32_t d = u32("v32");
    vp_eq(velocity{ a }.value, scale_up(a, 7, 16), "velocity from 7 bit");
    vp_eq(velocity{ a }.as_uint7(), a, "velocity 7 bit round trip");
    vp_eq(velocity{ c }.value, c, "velocity from 16 bit");
    vp_eq(velocity{ c }.as_uint7(), c >> 9, "velocity to 7 bit");
    vp_eq(velocity{}.value, 0x8000, "default velocity is the centre");
    vp_eq(pitch_bend{ b }.value, scale_up(b, 14, 32), "pitch bend from 14 bit");
    vp_eq(pitch_bend{ b }.as_uint14(), b, "pitch bend 14 bit round trip");
    vp_eq(pitch_bend{ d }.value, d, "pitch bend from 32 bit");
    vp_eq(pitch_bend{ d }.as_uint14(), d >> 18, "pitch bend to 14 bit");
    vp_eq(pitch_bend{}.value, 0x80000000u, "default pitch bend is the centre");
    pitch_bend pb{ d };
    pb.reset();
    vp_eq(pb.value, 0x80000000u, "pitch bend reset is the centre");
    vp_eq(controller_value{ a }.value, scale_up(a, 7, 32), "controller value from 7 bit");
    vp_eq(controller_value{ b }.value, scale_up(b, 14, 32), "controller value from 14 bit");
    vp_eq(controller_value{ d }.value, d, "controller value from 32 bit");
    vp_eq(controller_value{ a }.as_uint7(), a, "controller value 7 bit round trip");
    vp_eq(controller_value{ b }.as_uint14(), b, "controller value 14 bit round trip");
    vp_eq(controller_value{ d }.as_uint7(), d >> 25, "controller value to 7 bit");
    vp_eq(controller_value{ d }.as_uint14(), d >> 18, "controller value to 14 bit");
    vp_eq(controller_value{}.value, 0, "default controller value is zero");
    vp_eq(pitch_7_9{ a }.value, unsigned(a) << 9, "pitch 7.9 from note");
    vp_eq(pitch_7_9{ a }.note_nr(), a, "pitch 7.9 note round trip");
    vp_eq(pitch_7_9{ c }.note_nr(), c >> 9, "pitch 7.9 note number");
    vp_eq(pitch_7_9{ c }.value, c, "pitch 7.9 raw value");
    vp_eq(pitch_7_25{ a }.value, uint32_t(a) << 25, "pitch 7.25 from note");
    vp_eq(pitch_7_25{ a }.note_nr(), a, "pitch 7.25 note round trip");
    vp_eq(pitch_7_25{ d }.note_nr(), d >> 25, "pitch 7.25 note number");
    vp_eq(pitch_7_25{ pitch_7_9{ c } }.value, uint32_t(c) << 16, "pitch 7.25 from pitch 7.9");
    pitch_7_25 q;
    q = pitch_7_9{ c };
    vp_eq(q.value, uint32_t(c) << 16, "pitch 7.25 assigned from pitch 7.9");
    vp_eq(pitch_7_25{ controller_value{ d } }.value, d, "pitch 7.25 from controller value");
    vp_eq(controller_value{ pitch_7_25{ d } }.value, d, "controller value from pitch 7.25");
    vp_eq(pitch_bend_sensitivity{}.value, 2u << 25, "default pitch bend sensitivity is two semitones");
    vp_eq(pitch_bend_sensitivity{ d }.value, d, "pitch bend sensitivity raw value");
}
