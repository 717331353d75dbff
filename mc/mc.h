// mc.h - bounded exhaustive explorer for checks over the real jeaiii/ce code.
//
// A check registers scenarios.  Three kinds, all of them enumerate a finite space completely:
//   dfs   : void body();                stateless search, every branch point is mc::choose(n)
//   bfs   : u64  body(hist, n, ok);     explicit-state search, the state is rebuilt by replaying the
//                                       operation history on a fresh real object; the returned hash of the
//                                       canonical state deduplicates; ok=false means "operation not enabled"
//   sweep : void body(lo, hi);          every index of [0, size), mc::at(i) before each case
// A failed oracle, a trap (CE_ASSERT), a signal, a sanitizer report or a hang of one execution ends the run
// and leaves a replay file holding the exact choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>

namespace mc
{
    using u64 = unsigned long long;
    using u32 = unsigned int;

    extern bool thorough;      // VERIF_TIER=thorough
    extern bool replaying;

    // ---- exploration
    int choose(int n);                            // branch point, 0 <= result < n
    template<class T, size_t N> T pick(T const (&a)[N]) { return a[choose(int(N))]; }
    void slow_execution(int seconds); // from here on one execution may take this much CPU time
    void at(u64 i);                               // sweep: the case about to run
    void step(u64 n = 1);                         // count a transition (one operation of the implementation)
    bool state(u64 hash);                         // count a distinct canonical state; true when new
    void outcome(u64 hash);                       // count distinct observed outcomes (vacuity guard)
    void nontrivial(u64 n = 1);                   // sweep: case was non-trivial by the check's rule
    void sample(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // one written-out case for the evidence
    bool want_sample();
    void trace(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // human readable step of this execution
    void known(char const* key, char const* fmt, ...) __attribute__((format(printf, 2, 3))); // see mc.cpp
    [[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool is_known(char const* key);               // key listed in known_findings.txt for this property

#define MC_CHECK(C, ...) do { if (!(C)) ::mc::fail(__VA_ARGS__); } while (0)

    // ---- registration
    struct scenario
    {
        char const* name;
        int kind;              // 0 dfs, 1 bfs, 2 sweep
        void (*dfs)();
        u64 (*bfs)(unsigned char const* hist, int n, bool& ok);
        void (*sweep)(u64 lo, u64 hi);
        int nops, depth_quick, depth_thorough;   // bfs
        u64 size_quick, size_thorough, chunk;    // sweep
        bool thorough_only;
    };
    void add(scenario const& s);

    struct reg_dfs { reg_dfs(char const* n, void (*f)(), bool thorough_only = false) { scenario s{}; s.name = n; s.kind = 0; s.dfs = f; s.thorough_only = thorough_only; add(s); } };
    struct reg_bfs { reg_bfs(char const* n, u64 (*f)(unsigned char const*, int, bool&), int nops, int dq, int dt) { scenario s{}; s.name = n; s.kind = 1; s.bfs = f; s.nops = nops; s.depth_quick = dq; s.depth_thorough = dt; s.thorough_only = dq == 0; add(s); } };
    struct reg_sweep { reg_sweep(char const* n, void (*f)(u64, u64), u64 q, u64 t, u64 chunk = 1 << 16) { scenario s{}; s.name = n; s.kind = 2; s.sweep = f; s.size_quick = q; s.size_thorough = t; s.chunk = chunk; s.thorough_only = q == 0; add(s); } };

    // ---- hashing of canonical states
    struct hasher
    {
        u64 h = 0x9e3779b97f4a7c15ull;
        void u(u64 v)
        {
            h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
            h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull;
            h ^= h >> 27; h *= 0x94d049bb133111ebull;
            h ^= h >> 31;
        }
        void s(char const* p) { for (; *p; ++p) u((unsigned char)*p); u(~0ull); }
        void b(void const* p, size_t n) { auto c = (unsigned char const*)p; u(n); for (size_t i = 0; i < n; ++i) u(c[i]); }
        operator u64() const { return h; }
    };
}

#define MC_DFS(NAME) static void NAME(); static ::mc::reg_dfs reg_##NAME(#NAME, NAME); static void NAME()
#define MC_DFS_THOROUGH(NAME) static void NAME(); static ::mc::reg_dfs reg_##NAME(#NAME, NAME, true); static void NAME()
#define MC_BFS(NAME, NOPS, DQ, DT) static ::mc::u64 NAME(unsigned char const*, int, bool&); static ::mc::reg_bfs reg_##NAME(#NAME, NAME, NOPS, DQ, DT); static ::mc::u64 NAME([[maybe_unused]] unsigned char const* hist, [[maybe_unused]] int n, [[maybe_unused]] bool& ok)
#define MC_SWEEP(NAME, Q, T, CHUNK) static void NAME(::mc::u64, ::mc::u64); static ::mc::reg_sweep reg_##NAME(#NAME, NAME, Q, T, CHUNK); static void NAME(::mc::u64 lo, ::mc::u64 hi)
