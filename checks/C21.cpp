//@ level: model_checking
//@ technique: stateless exhaustive search over all histories of clock operations and counter behaviour; the counter and its frequency are the harness's, so the explorer chooses every advance
//@ note: Each scenario is one rate and frequency (the clock is a template); the oracle computes the tick total in 128 bits from the whole counter time, so any drift shows in the step where it starts.
//@ cxx: -O2
//@ bounds: histories of up to 4 (6) operations of {elapsed, current, reset}, each preceded by one of 9 counter advances from 0 to 2^64-1 (including exactly, one less and one more than a tick and a second), 3 starting values including the wrap of the counter, 18 rate / frequency pairs from 1/1 to products just below 2^64
//@ assume: frequency * Fd * (Fn + 1) fits in 64 bits; the counter advances by less than 2^64 between two reads; tick counts are taken modulo 2^64
#include "mc.h"
#include "ce/clock.h"
#include <cstring>
#include <cstdlib>
using namespace mc;
using u128 = unsigned __int128;

static u64 g_counter, g_frequency, g_reads, g_drift;
namespace ce { namespace os {
    uint64_t monotonic_timestamp() { ++g_reads; g_counter += g_drift; return g_counter; }
    uint64_t monotonic_frequency() { return g_frequency; }
} }

template<u64 Fn, u64 Fd> struct run
{
    static void go(u64 frequency)
    {
        using clock = ce::clock<Fn, Fd>;
        u64 fd = frequency * Fd, tick = fd / Fn ? fd / Fn : 1;
        u64 const adv[] = { 0, 1, tick, tick - 1, tick + 1, fd, fd - 1, u64(1) << 63 | 12345, ~u64(0) };
        u64 const start[] = { 0, 1000003, ~u64(0) - 5 };
        struct { clock a; u64 guard[2]; } m;
        memset((void*)&m, 0xA7, sizeof m);
        g_frequency = frequency; g_drift = 0; g_counter = pick(start);
        g_drift = choose(2) ? 3 : 0;                     // the counter also moves while it is being read
        u64 g0 = m.guard[0];
        m.a.reset();
        trace("rate %llu/%llu, counter frequency %llu, reset at %llu", Fn, Fd, frequency, g_counter);
        u64 last = g_counter; u128 total = 0; u64 given = 0;
        int depth = thorough ? 6 : 4;
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(thorough || i < 3 ? 4 : 3);  // 0: end
            if (op == 0) break;
            if (op == 3 && i == 0) break;
            u64 d = pick(adv);
            g_counter += d;
            u64 r = 0;
            if (op == 1) r = m.a.elapsed(); else if (op == 2) r = m.a.current(); else m.a.reset();
            step();
            total += u64(g_counter - last); last = g_counter;
            trace("counter advances %llu; %s -> %llu", d, op == 1 ? "elapsed" : op == 2 ? "current" : "reset", r);
            if (op == 3) { total = 0; given = 0; continue; }
            u64 want = u64(total * Fn / fd);
            if (op == 1)
                MC_CHECK(r == want - given, "elapsed returns %llu ticks, %llu were added since the previous call (total %llu)", r, want - given, want);
            else
                MC_CHECK(r == want, "current is %llu ticks, the floor of counter time * rate / frequency is %llu", r, want);
            given = want;
            outcome(want);
        }
        MC_CHECK(m.guard[0] == g0 && m.guard[1] == g0, "memory after the clock changed");
        hasher h; h.u(Fn); h.u(Fd); h.u(frequency); h.u(given); h.u(u64(total)); h.u(last); state(h);
        if (want_sample()) sample("rate %llu/%llu frequency %llu: %llu counter units -> %llu ticks", Fn, Fd, frequency, u64(total), given);
    }
};
#define CASE(NAME, FN, FD, FREQ) MC_DFS(NAME) { run<FN, FD>::go(FREQ); }
CASE(hz60_ns, 60, 1, 1000000000)
CASE(ms_ns, 1000, 1, 1000000000)
CASE(ntsc_ns, 30000, 1001, 1000000000)
CASE(ns_ns, 1000000000, 1, 1000000000)
CASE(ten_ghz_ns, 10000000000ull, 1, 1000000000)
CASE(hz60_qpc, 60, 1, 10000000)
CASE(hz60_pal, 60000, 1001, 3579545)
CASE(one_one, 1, 1, 1)
CASE(three_seven, 3, 1, 7)
CASE(seven_three, 7, 1, 3)
CASE(sevenfifths_three, 7, 5, 3)
CASE(slow, 1, 86400, 1000000000)
CASE(fast_on_slow, u64(1) << 40, 1, 1)
CASE(fast_on_three, u64(1) << 40, 1, 3)
CASE(wide, 4294967297ull, 1, 4294967295ull)
CASE(wide2, 4294967294ull, 1, 4294967295ull)
CASE(wide3, 3, 4611686018427ull, 999999)
CASE(prime, 48000, 1, 4294967291ull)
CASE(five_ghz, 60, 1, 5000000000ull)
CASE(tera, 1000, 1001, 1000000000000ull)
CASE(counter40, 1000000, 1, (u64(1) << 40) + 1)
// two clocks of one type do not share anything
MC_DFS(two_clocks)
{
    using clock = ce::clock<60, 7>;
    static u64 const adv[] = { 0, 50, 117, 1000003 };
    clock c[2]; memset((void*)c, 0x5a, sizeof c);
    g_frequency = 1000; g_drift = 0; g_counter = 77;
    u128 total[2] = {}; u64 last[2], given[2] = {};
    for (int k = 0; k < 2; ++k) { g_counter += pick(adv); c[k].reset(); last[k] = g_counter; }
    int depth = thorough ? 6 : 4;
    for (int i = 0; i < depth; ++i)
    {
        int k = choose(2), op = choose(3);
        g_counter += pick(adv);
        total[k] += u64(g_counter - last[k]); last[k] = g_counter;
        step();
        if (op == 2) { c[k].reset(); total[k] = 0; given[k] = 0; continue; }
        u64 want = u64(total[k] * 60 / 7000), r = op ? c[k].current() : c[k].elapsed();
        MC_CHECK(r == want - (op ? 0 : given[k]), "clock %d: %s gives %llu, expected %llu", k, op ? "current" : "elapsed", r, want - (op ? 0 : given[k]));
        given[k] = want;
    }
    hasher h; for (int k = 0; k < 2; ++k) h.u(given[k]), h.u(u64(total[k])), h.u(last[k]); state(h);
}
