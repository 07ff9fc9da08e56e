// P18: jitter reduction timestamps and clock follower
#include "packet.h"
#include <midi/jitter_reduction_timestamps.h>
#include <midi/utility_message.h>
#include <iterator>
using namespace midi;

using follower = jr_clock_follower;
using time_pt  = follower::time_point;
using dur      = follower::duration;

// the system clock of the analysed program: the harness decides the time
static int64_t current_time = 0;
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point{ duration{ current_time } }; }
steady_clock::time_point steady_clock::now() noexcept { return time_point{ duration{ current_time } }; }
} // namespace _V2
} // namespace std::chrono

namespace {
// times of arrival: nanoseconds after the start of the program, up to about 17 s; the same rank keeps compared values together
constexpr unsigned time_bits = 34;
int64_t ns(time_pt t) { return int64_t(t.time_since_epoch().count()); }
time_pt at(uint64_t t) { return time_pt{ dur{ int64_t(t) } }; }
constexpr int64_t tick = 32000; // 1/31250 s
} // namespace

VPE(difference)
{
    const uint16_t a = u16("a"), b = u16("b");
    const jr_timestamp_t x{ a }, y{ b };
    vp_eq(uint64_t((x - y).count()), uint16_t(a - b), "the difference of two timestamps is the number of ticks from the second to the first, modulo 2^16");
    vp_eq(x == y, a == b, "timestamps are equal iff their ticks are");
    vp_eq(x != y, a != b, "timestamps are different iff their ticks are");
    vp_eq(jr_timestamp_t{}.value, 0, "a default timestamp is zero");
    vp_eq(x.value, a, "a timestamp keeps its ticks");
}
VPE(ticks)
{
    vp_eq(uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(jr_ticks{ 1 }).count()), tick, "a tick is 1/31250 s");
    vp_eq(jr_clock_frequency, 31250, "the clock runs at 31250 Hz");
    const jr_timestamp_t t = jr_clock::now();
    vp_check(t.value <= 0xFFFF, "the current time is a 16 bit timestamp");
    vp_cover("now");
}
// the clock counts ticks modulo 2^16, whatever its phase
VPE(now)
{
    current_time            = 123456789;
    const jr_timestamp_t  a = jr_clock::now();
    constexpr uint64_t    base[] = { 0, 1000, 31250, 0x7FFF, 0xF800, 0xFFFF, 0x10000, 0x12345, 0x1FFFF, 31250ull * 86400 * 3 };
    for (const auto b : base)
        for (unsigned k = 0; k < 3; ++k)
        {
            const uint64_t n = b + (vp_sym("n", 8, 3) << (k * 4));
            current_time     = int64_t(123456789 + n * 32000);
            vp_eq((jr_clock::now() - a).count(), n & 0xFFFF, "the JR clock counts ticks of 1/31250 s modulo 2^16");
        }
    current_time = 0;
}
VPE(messages)
{
    const uint16_t t = u16("t"), u = u16("u");
    words(jr_clock_message{}, 0x00100000, 0, 0, 0, "an empty clock message has time 0");
    words(jr_timestamp_message{}, 0x00200000, 0, 0, 0, "an empty timestamp message has time 0");
    jr_clock_message c{ jr_timestamp_t{ t } };
    words(c, 0x00100000u | t, 0, 0, 0, "clock message layout");
    vp_eq(c.timestamp().value, t, "clock message reads back its time");
    vp_eq(c.size(), 1, "a clock message is one word");
    jr_timestamp_message s{ jr_timestamp_t{ t } };
    words(s, 0x00200000u | t, 0, 0, 0, "timestamp message layout");
    vp_eq(s.timestamp().value, t, "timestamp message reads back its time");
    c.set_timestamp(jr_timestamp_t{ u });
    words(c, 0x00100000u | u, 0, 0, 0, "set_timestamp changes the time of a clock message and nothing else");
    s.set_timestamp(jr_timestamp_t{ u });
    words(s, 0x00200000u | u, 0, 0, 0, "set_timestamp changes the time of a timestamp message and nothing else");
    vp_eq(s.timestamp().value, u, "timestamp message reads back its new time");
}
VPE(initial)
{
    follower f;
    vp_eq(uint64_t(f.security_offset().count()), 2000000, "the security offset starts at 2 ms");
    vp_eq(uint64_t(f.jitter().count()), 0, "no jitter at the start");
    const uint64_t t = vp_sym("t", time_bits, 3), o = vp_sym("o", time_bits, 3);
    const uint16_t s = u16("s", 4);
    vp_eq(uint64_t(ns(f.schedule_message(at(t), jr_timestamp_t{ s }))), t + 2000000, "without a clock a message is due when received, plus the security offset");
    f.set_security_offset(dur{ int64_t(o) });
    vp_eq(uint64_t(f.security_offset().count()), o, "the security offset can be set");
    vp_eq(uint64_t(ns(f.schedule_message(at(t), jr_timestamp_t{ s }))), t + o, "a new security offset applies to the next message");
    f.reset();
    vp_eq(uint64_t(f.security_offset().count()), 2000000, "reset restores the security offset");
    vp_eq(uint64_t(f.jitter().count()), 0, "reset forgets the jitter");
}
namespace {
// a distance in ticks; bit i of it is ordered next to bit i+8 of the times it is added to (a tick is 125 * 2^8 ns)
uint16_t ticks(const char* n, unsigned bits) { return uint16_t(vp_sym(n, bits + 8, 3) >> 8); }
}
// first clock: reference; a message is due at the reference plus its distance from the clock
VPE(first_clock)
{
    follower       f;
    const uint64_t t = vp_sym("t", time_bits, 3);
    const uint16_t c = 0xFFF0, d = ticks("d", 16);
    vp_assume(t != 0);
    f.process_clock(at(t), jr_timestamp_t{ c });
    vp_eq(uint64_t(f.jitter().count()), 0, "the first clock has no jitter");
    const auto r = f.schedule_message(at(vp_sym("r", time_bits, 9)), jr_timestamp_t{ uint16_t(c + d) });
    vp_eq(uint64_t(ns(r)), t + uint64_t(d) * tick + 2000000, "a message is due at the clock's time plus the distance of its timestamp, plus the security offset");
}
// second clock, early or late by e
VPE(jitter)
{
    follower       f;
    const uint64_t t = vp_sym("t", time_bits, 3) + 1;
    const uint16_t c = u16("c", 2);
    const uint64_t e = vp_sym("e", 24, 3);
    const uint16_t d = 700;
    const bool late = ubool("late", 1);
    f.process_clock(at(t), jr_timestamp_t{ c });
    const uint64_t due = t + uint64_t(d) * tick;
    f.process_clock(at(late ? due + e : due - e), jr_timestamp_t{ uint16_t(c + d) });
    vp_eq(uint64_t(f.jitter().count()), e, "the jitter is the distance of a clock from its expected time");
    const uint64_t o = e * 12 / 10;
    vp_eq(uint64_t(f.security_offset().count()), o > 2000000 ? o : 2000000, "the security offset grows to 1.2 times the jitter and never shrinks");
    f.reset();
    vp_eq(uint64_t(f.security_offset().count()), 2000000, "reset restores the security offset");
    vp_eq(uint64_t(f.jitter().count()), 0, "reset forgets the jitter");
    vp_eq(uint64_t(ns(f.schedule_message(at(t), jr_timestamp_t{ c }))), t + 2000000, "after a reset messages are due when received");
}
// clocks late by seconds, minutes, days
VPE(long_delay)
{
    for (unsigned shift : { 24u, 30u, 36u, 42u })
    {
        follower       f;
        const uint64_t e = vp_sym("e", 8, 3) << shift, t = 1000000007;
        f.process_clock(at(t), jr_timestamp_t{ 60000 });
        const uint64_t due = t + uint64_t(6000) * tick;
        f.process_clock(at(due + e), jr_timestamp_t{ uint16_t(60000 + 6000) });
        vp_eq(uint64_t(f.jitter().count()), e, "the jitter is the distance of a clock from its expected time");
        const uint64_t o = e * 12 / 10;
        vp_eq(uint64_t(f.security_offset().count()), o > 2000000 ? o : 2000000, "the security offset grows to 1.2 times the jitter and never shrinks");
    }
}
static void order(unsigned steps, unsigned bits, unsigned unit)
{
    follower f;
    uint16_t sent = 0xFF00;
    uint64_t last = 0;
    // arrival times are arbitrary (not even increasing); the sender's timestamps never run backwards
    f.process_clock(at((vp_sym("t", bits, 3) << unit) + 1), jr_timestamp_t{ sent });
    for (unsigned k = 0; k < steps; ++k)
    {
        const bool move = ubool("move", 1), clock = ubool("clock", 1);
        sent            = uint16_t(sent + (move ? 40 : 0));
        const uint64_t t = (vp_sym("t", bits, 3) << unit) + 1;
        if (clock)
            f.process_clock(at(t), jr_timestamp_t{ sent });
        else
        {
            const uint64_t r = uint64_t(ns(f.schedule_message(at(t), jr_timestamp_t{ sent })));
            vp_check(r >= last, "messages are never scheduled out of order");
            last = r;
        }
    }
}
VPE(order_2) { order(2, 24, 0); }
// coarser times (up to 33 ms)
VPE(order_3) { order(3, 6, 19); }
VPE(order_4) { order(4, 4, 21); }
#if VP_THOROUGH
VPE(order_4_fine) { order(4, 6, 19); }
#endif
// from the first message on, without a clock yet; arrival times do not run backwards
VPE(order_start)
{
    follower f;
    uint16_t sent = 0xFFE0;
    uint64_t last = 0, t = 1;
    for (unsigned k = 0; k < 4; ++k)
    {
        const bool move = ubool("move", 1), clock = ubool("clock", 1);
        sent = uint16_t(sent + (move ? 40 : 0));
        t += vp_sym("t", 4, 3) << 21;
        if (clock)
            f.process_clock(at(t), jr_timestamp_t{ sent });
        else
        {
            const uint64_t r = uint64_t(ns(f.schedule_message(at(t), jr_timestamp_t{ sent })));
            vp_check(r >= last, "messages are never scheduled out of order, also before and at the first clock");
            vp_check(r >= 2000000, "a message is never due before the security offset has passed");
            last = r;
        }
    }
}

// exact history: what the follower has to answer for any sequence of clocks and messages.
// The delay of a clock is its arrival time minus the sender's time; the reference follows the shortest delay seen, and the
// jitter is the difference of the longest and the shortest one.
namespace {
constexpr int64_t distances[] = { 40, 0, 0x7FFF, 0x8001, 0xFFFF, 1 };
struct history
{
    bool    clock = false;
    int64_t sender = 0;              // the sender's time at the last clock, in ticks since its first clock
    int64_t shortest = 0, longest = 0;
    int64_t message = 0;             // time of the last message, without offset
    int64_t offset = 2000000;

    void on_clock(int64_t received, int64_t sent)
    {
        const int64_t delay = received - sent * tick;
        if (!clock)
        {
            shortest = longest = delay;
            message            = received;
        }
        else if (delay < shortest)
            shortest = delay;
        else if (delay > longest)
            longest = delay;
        clock  = true;
        sender = sent;
        if (received > message)
            message = received;
        const int64_t o = (longest - shortest) * 12 / 10;
        if (o > offset)
            offset = o;
    }
    int64_t on_message(int64_t received, int64_t sent)
    {
        if (!clock)
            message = received;
        else if (const int64_t due = shortest + sent * tick; due > message)
            message = due;
        return message + offset;
    }
};
// step k: kind bit k (1: clock), distance of its timestamp from the one before
void run(unsigned steps, unsigned kinds, unsigned which, int64_t offset, unsigned reset_at, const int64_t* late)
{
    follower f;
    history  h;
    int64_t  sent = 0;
    if (offset >= 0)
    {
        f.set_security_offset(dur{ offset });
        h.offset = offset;
    }
    for (unsigned k = 0; k < steps; ++k, which /= std::size(distances))
    {
        if (k + 1 == reset_at)
        {
            f.reset();
            h = history{};
        }
        const int64_t d        = distances[which % std::size(distances)];
        sent += k ? d : 0;
        if (h.clock && sent - h.sender > 0xFFFF)
            return; // a clock has to arrive at least every 2^16 ticks
        const int64_t received = 5000000 + sent * tick + late[k];
        const jr_timestamp_t ts{ uint16_t(0xFFE0 + sent) };
        if (kinds & (1u << k))
        {
            f.process_clock(at(uint64_t(received)), ts);
            h.on_clock(received, sent);
            vp_eq(uint64_t(f.jitter().count()), uint64_t(h.longest - h.shortest), "the jitter is the difference between the longest and the shortest delay of the clocks");
            vp_eq(uint64_t(f.security_offset().count()), uint64_t(h.offset), "the security offset grows to 1.2 times the jitter and never shrinks");
        }
        else
            vp_eq(uint64_t(ns(f.schedule_message(at(uint64_t(received)), ts))), uint64_t(h.on_message(received, sent)),
                  "a message is due at the clock's reference time plus its distance, not before an earlier message, plus the security offset");
    }
}
void histories(unsigned steps, int64_t offset, unsigned reset_at, unsigned bits, unsigned unit)
{
    unsigned n = 1;
    int64_t  late[8] = {};
    for (unsigned k = 0; k < steps; ++k)
        late[k] = int64_t(vp_sym("t", bits, 3) << unit);
    for (unsigned k = 0; k < steps; ++k)
        n *= unsigned(std::size(distances));
    for (unsigned kinds = 0; kinds < (1u << steps); ++kinds)
        for (unsigned which = 0; which < n; which += unsigned(std::size(distances))) // the first distance does not matter
            run(steps, kinds, which, offset, reset_at, late);
}
} // namespace
VPE(history_3) { histories(3, -1, 0, 12, 14); }
VPE(history_3_set) { histories(3, 10000000, 0, 8, 18); }
VPE(history_3_zero) { histories(3, 0, 0, 8, 18); }
VPE(history_3_reset) { histories(3, -1, 2, 8, 18); }
// the security offset is set in the middle of a history: it applies from then on, and the jitter observed stays
VPE(offset_later)
{
    follower      f;
    history       h;
    int64_t       sent = 0;
    const int64_t offset = int64_t(vp_sym("o", 4, 3) << 21);
    for (unsigned k = 0; k < 4; ++k)
    {
        if (k == 2)
        {
            f.set_security_offset(dur{ offset });
            h.offset = offset;
            vp_eq(uint64_t(f.jitter().count()), uint64_t(h.longest - h.shortest), "setting the security offset keeps the observed jitter");
        }
        const int64_t received = 5000000 + sent * tick + int64_t(vp_sym("t", 4, 3) << 21);
        const jr_timestamp_t ts{ uint16_t(0xFFE0 + sent) };
        const auto before = h.longest - h.shortest;
        f.process_clock(at(uint64_t(received)), ts);
        const auto old = h.offset;
        h.on_clock(received, sent);
        if (h.longest - h.shortest == before) // nothing new observed
            h.offset = old;
        vp_eq(uint64_t(f.jitter().count()), uint64_t(h.longest - h.shortest), "the jitter is the difference between the longest and the shortest delay of the clocks");
        vp_eq(uint64_t(f.security_offset().count()), uint64_t(h.offset), "an offset set later stays until more jitter is observed");
        vp_eq(uint64_t(ns(f.schedule_message(at(uint64_t(received)), ts))), uint64_t(h.on_message(received, sent)), "a message is due with the offset set last");
        sent += 40;
    }
}
VPE(history_4) { histories(4, -1, 0, 4, 22); }
VPE(history_4_reset) { histories(4, 3000000, 3, 3, 23); }
#if VP_THOROUGH
VPE(history_5) { histories(5, -1, 0, 2, 23); }
#endif
// long histories: every third delay is arbitrary
VPE(history_long)
{
    follower f;
    history  h;
    int64_t  sent = 0;
    uint32_t x = 12345;
    int64_t  late[4];
    for (auto& l : late)
        l = int64_t(vp_sym("t", 3, 3) << 21);
    for (unsigned k = 0; k < 400; ++k)
    {
        x                = x * 1664525u + 1013904223u;
        const bool clock = k == 0 || k % 7 == 0 || (x >> 31);
        const int64_t d  = (x >> 20) & 0xFFF;
        sent += k ? d : 0;
        const int64_t received = 5000000 + sent * tick + (k % 3 ? int64_t((x >> 8) & 0xFFF) * 1000 : late[(x >> 16) & 3]);
        const jr_timestamp_t ts{ uint16_t(0xFFE0 + sent) };
        if (clock)
        {
            f.process_clock(at(uint64_t(received)), ts);
            h.on_clock(received, sent);
            vp_eq(uint64_t(f.jitter().count()), uint64_t(h.longest - h.shortest), "long history: the jitter is the difference between the longest and the shortest delay of the clocks");
            vp_eq(uint64_t(f.security_offset().count()), uint64_t(h.offset), "long history: the security offset grows to 1.2 times the jitter and never shrinks");
        }
        else
            vp_eq(uint64_t(ns(f.schedule_message(at(uint64_t(received)), ts))), uint64_t(h.on_message(received, sent)), "long history: every message is due at its time");
    }
}
