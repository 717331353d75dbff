//@ level: model_checking
//@ technique: stateless exhaustive search over generator answers (the environment of next_ranged and next_unbiased) through the real functions with a scripted generator; exhaustive enumeration of all 2^32 first answers for fixed bounds with a direct count per result
//@ note: The generator is a type of the harness whose answers the explorer chooses, so retry loops of any length up to 5 are covered; uniformity is counted directly over all 2^32 answers for small bounds and through the exact acceptance rule for many more.
//@ cxx: -O2
//@ bounds: answers: the boundaries of the rejection zone and of every kind of result, up to 5 answers in a row; direct counting over 2^32 answers for 3 (14) bounds; acceptance of every boundary answer for all bounds below 2^16 and 2^20 (2^26) spread bounds; runs of 0..299 and up to 2^17 refused outputs
//@ assume: the fixed point scaling of an answer r is floor(r * n / 2^32); an answer is refused exactly when the low half of r * n is below 2^32 mod n
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
using namespace mc;

static u32 (*answer_at)(u32 index);
struct script { u32 i; };
static u32 reads, top;
static u32 read(script g) { ++reads; if (g.i + 1 > top) top = g.i + 1; return answer_at(g.i); }
static script step(script g) { return { g.i + 1 }; }

// ---- all answer sequences of a small set
static u32 answers[64]; static int nanswers; static u32 cand[40]; static int ncand;
static u32 dfs_answer(u32 i)
{
    if (i >= 60) fail("more than 60 outputs were looked at");
    while (nanswers <= int(i)) { int k = nanswers < 5 ? choose(ncand) : ncand - 1; answers[nanswers++] = cand[k]; trace("output %d is %08x", nanswers - 1, answers[nanswers - 1]); }
    return answers[i];
}
static u32 const bounds_[] = { 0, 1, 2, 3, 5, 6, 7, 10, 16, 100, 255, 256, 257, 641, 1000, 65535, 65536, 65537, 1000000007u, 0x55555555u, 0x55555556u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xaaaaaaabu, 0xc0000000u, 0xfffffffeu, 0xffffffffu };
static bool accepted(u32 r, u32 n) { if (n < 2) return true; u64 m = u64(r) * n; return u32(m) >= u32((u64(1) << 32) % n); }
MC_DFS(sequences)
{
    u32 n = pick(bounds_);
    bool unb = choose(2);
    // candidate outputs: around zero, the ends of the first, a middle and the last result's interval; the last one is always acceptable
    ncand = 0;
    auto push = [&](u64 v) { if (v >> 32) return; for (int i = 0; i < ncand; ++i) if (cand[i] == u32(v)) return; cand[ncand++] = u32(v); };
    for (u64 k : { u64(0), u64(n / 2), u64(n - 1), u64(1) })
        if (n && k < n)
        {
            u64 first = ((k << 32) + n - 1) / n;      // first output scaling to k
            if (thorough) push(first - 1);
            push(first), push(first + 1);
            if (n > 1) { u64 t = (u64(1) << 32) % n, q = ((k << 32) + t + n - 1) / n; push(q); if (q) push(q - 1); }
        }
    push(0xffffffffu); if (!n) push(0), push(12345);
    u32 good = 0; while (!accepted(good, n)) ++good;
    for (int i = 0; i < ncand; ++i) if (cand[i] == good) { cand[i] = cand[ncand - 1]; --ncand; break; }
    cand[ncand++] = good;
    nanswers = 0; answer_at = dfs_answer; reads = 0; top = 0;
    u32 const start = 0;
    script g{ start };
    u32 v = unb ? ce::next_unbiased(g, n) : ce::next_ranged(g, n);
    mc::step();
    u32 used = g.i;
    trace("%s(%u) = %u after %u outputs", unb ? "next_unbiased" : "next_ranged", n, v, used);
    MC_CHECK(n < 2 ? v == 0 : v < n, "%s(%u) returned %u", unb ? "next_unbiased" : "next_ranged", n, v);
    MC_CHECK(used >= 1 && int(used) <= nanswers, "the generator was left stepped %u times after %d outputs were looked at", used, nanswers);
    MC_CHECK(int(used) == nanswers, "the generator was stepped %u times, %d outputs were looked at", used, nanswers);
    if (unb) for (u32 i = 0; i + 1 < used; ++i) MC_CHECK(!accepted(answers[i], n), "next_unbiased(%u) retried on the acceptable output %08x", n, answers[i]);
    if (unb) MC_CHECK(accepted(answers[used - 1], n), "next_unbiased(%u) accepted the output %08x of the biased zone", n, answers[used - 1]);
    if (!unb) MC_CHECK(used == 1, "next_ranged consumed %u outputs", used);
    u32 want = u32(u64(answers[used - 1]) * n >> 32);
    MC_CHECK(v == want, "%s(%u) of output %08x is %u, its scaling is %u", unb ? "next_unbiased" : "next_ranged", n, answers[used - 1], v, want);
    hasher h; h.u(n); h.u(unb); h.u(used); for (u32 i = 0; i < used; ++i) h.u(answers[i]); state(h); outcome(h);
}

// ---- direct counting: every first output; retries are answered by an acceptable output so each draw ends
static u32 first_answer, good_answer; static bool runaway;
static u32 sweep_answer(u32 i) { if (i > 3) fail("next_unbiased keeps retrying an acceptable output"); return i == 0 ? first_answer : good_answer; }
static u32 const counted[] = { 6, 255, 1000003, 2, 3, 5, 7, 65535, 65537, 10, 641, 1 << 20, 12345, 1 };
MC_SWEEP(counting, 3, 14, 1)
{
    for (u64 k = lo; k < hi; ++k)
    {
        at(k); u32 n = counted[k]; std::vector<u64> count(n ? n : 1);
        answer_at = sweep_answer;
        // an output that is accepted, found by asking the function itself
        for (good_answer = 0x12345678u;; good_answer += 0x1000193u) { first_answer = good_answer; script g{ 0 }; ce::next_unbiased(g, n); if (g.i == 1) break; }
        u64 rejected = 0;
        for (u64 r = 0; r < u64(1) << 32; ++r)
        {
            if ((r & 0xffffff) == 0) at(k);
            first_answer = u32(r);
            script g{ 0 };
            u32 v = ce::next_unbiased(g, n);
            if (g.i == 1) { if (v >= n) fail("next_unbiased(%u) of %08x is %u", n, u32(r), v); ++count[v]; }
            else { ++rejected; if (g.i != 2) fail("next_unbiased(%u) took %u outputs after refusing %08x", n, g.i, u32(r)); }
        }
        for (u32 v = 0; v < n; ++v) MC_CHECK(count[v] == count[0], "over all outputs next_unbiased(%u) yields %u %llu times and 0 %llu times", n, v, count[v], count[0]);
        MC_CHECK(count[0] * n + rejected == u64(1) << 32, "outputs are lost");
        MC_CHECK(count[0] > 0, "no output is ever accepted");
        sample("bound %u: every result from exactly %u outputs, %llu refused", n, count[0], rejected);
        nontrivial(u64(1) << 32); mc::step(u64(1) << 32);
    }
}
// ---- many bounds, the boundary outputs of several results
MC_SWEEP(many_bounds, (1 << 16) + (1 << 20), (1 << 16) + (1 << 26), 1 << 10)
{
    answer_at = sweep_answer;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        u32 n = i < 65536 ? u32(i) : u32((i - 65536) * 0x9e3779b1u + 0x7f4a7c15u);
        if (i >= 65536 && i < 65536 + 4096) { u32 e = u32(i - 65536); n = (1u << e % 32) + (e / 32 % 2 ? 1u << e / 64 % 32 : 0u - (1u << e / 64 % 32)); }
        if (n < 1) continue;
        for (good_answer = 0; !accepted(good_answer, n); ++good_answer);
        u64 t = n < 2 ? 0 : (u64(1) << 32) % n;
        u32 rs[] = { 0, 1, n / 2, n - 1, n / 3 };
        for (u32 k : rs) if (k < n)
            for (int d = -1; d < 3; ++d) for (int z = 0; z < 2; ++z)
            {
                u64 r = ((u64(k) << 32) + (z ? t : 0) + n - 1) / n + u64(d);
                if (r >> 32) continue;
                first_answer = u32(r); script g{ 0 };
                u32 v = ce::next_unbiased(g, n);
                bool acc = accepted(u32(r), n);
                MC_CHECK(g.i == (acc ? 1 : 2), "next_unbiased(%u) %s the output %08x", n, acc ? "refused" : "accepted", u32(r));
                MC_CHECK(v == u32(u64(acc ? u32(r) : good_answer) * n >> 32), "next_unbiased(%u) of %08x is %u", n, u32(r), v);
                script h{ 0 };
                u32 w = ce::next_ranged(h, n);
                MC_CHECK(h.i == 1 && w == u32(r * n >> 32), "next_ranged(%u) of %08x is %u after %u outputs", n, u32(r), w, h.i);
                nontrivial();
            }
        mc::step();
    }
}
// ---- the same through the library's own generator
MC_SWEEP(real_generator, 1 << 16, 1 << 24, 1 << 10)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); ce::pcg32_64_t g; seed(g, i);
        u32 n = u32(i % 2 ? i * 0x9e3779b1u : i); if (i % 3 == 0) n = 0x80000001u + u32(i);
        auto a = g, b = g; u64 q = u64(g);
        u32 r = ce::next_ranged(a, n), w = next(b);
        MC_CHECK(r == u32(u64(w) * n >> 32) && u64(a) == u64(b), "next_ranged(%u) of pcg32 state %016llx is %u", n, q, r);
        auto u = g, v = g; u32 x = ce::next_unbiased(u, n), y;
        do y = next(v); while (!accepted(y, n));
        MC_CHECK(x == u32(u64(y) * n >> 32) && u64(u) == u64(v), "next_unbiased(%u) of pcg32 state %016llx is %u, expected %u", n, q, x, u32(u64(y) * n >> 32));
        nontrivial(); mc::step();
    }
}

// ---- long runs of refused outputs: exactly the first acceptable one after 1 .. 2^20 (2^28) refused ones is used
static u32 run_length, run_bound, bad_answer;
static u32 run_answer(u32 i) { if (i > run_length) fail("next_unbiased(%u) goes on after the acceptable output number %u", run_bound, run_length); return i == run_length ? good_answer : bad_answer; }
MC_SWEEP(long_runs, 300 + 8, 300 + 14, 1)
{
    static u32 const ns[] = { 3, 6, 255, 1000003, 0x80000001u, 0xc0000000u, 0xfffffffeu };
    answer_at = run_answer;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        run_length = i < 300 ? u32(i) : i < 308 ? (1000u << (i - 300)) + 3000 * u32(i - 300) * u32(i - 300) * u32(i - 300) : 1u << (14 + i - 300);
        for (u32 n : ns)
        {
            run_bound = n;
            for (bad_answer = 0; accepted(bad_answer, n); ++bad_answer);
            for (good_answer = 0x12345678u; !accepted(good_answer, n); good_answer += 0x1000193u);
            script g{ 0 }; u32 v = ce::next_unbiased(g, n); mc::step();
            MC_CHECK(g.i == run_length + 1, "next_unbiased(%u) took %u outputs, the first acceptable one is number %u", n, g.i, run_length + 1);
            MC_CHECK(v == u32(u64(good_answer) * n >> 32), "next_unbiased(%u) after %u refused outputs is %u", n, run_length, v);
        }
        nontrivial();
    }
}
