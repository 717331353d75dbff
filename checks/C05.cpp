//@ level: model_checking
//@ technique: explicit-state model checking of the real priority queue (BFS over enqueue/dequeue histories against a multiset)
//@ note: Every history over small key sets for capacities 1..8 to the fixpoint of reachable heaps, with distinguishable items of equal key up to capacity 5, and every arrival order of up to 9 different keys followed by a complete drain. Guards and AddressSanitizer around the queue.
//@ cxx: -O1 -fsanitize=address
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: capacities 1..8, 2..4 keys with duplicates (fixpoint); all permutations of 8 (quick) / 10 (thorough) keys; all weak orders of 7; capacities 300, 66000 and 200000 filled and drained in 5 (50, 10) orders
#include "mc.h"
#include "ce/ce.h"
#include <set>
#include <vector>
#include <cstring>
#include <algorithm>
#include <string>
using namespace mc;

struct item { int key; int id; friend bool operator<(item const& a, item const& b) { return a.key < b.key; } };
static int key(int x) { return x; }
static int key(item const& x) { return x.key; }
static int id(int) { return 0; }
static int id(item const& x) { return x.id; }
static void mk(int& d, int k, int) { d = k; }
static void mk(item& d, int k, int i) { d = { k, i }; }

template<size_t N, class T, int K> struct world
{
    struct mem { unsigned long long g0; ce::min_priority_queue<N, T> q; unsigned long long g1; };
    static inline mem m;
    std::multiset<std::pair<int, int>> ref;
    world() { memset((void*)&m, 0x5e, sizeof m); m.q.size = 0; }
    void check(char const* what)
    {
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull && m.g1 == m.g0, "%s: memory outside the queue changed", what);
        MC_CHECK(m.q.empty() == ref.empty(), "%s: empty() is %d with %zu items", what, m.q.empty(), ref.size());
        if (!ref.empty()) MC_CHECK(key(m.q.head()) == ref.begin()->first, "%s: head is %d, smallest is %d", what, key(m.q.head()), ref.begin()->first);
        static mem c; memcpy((void*)&c, (void*)&m, sizeof m);
        auto r = ref;
        while (!r.empty())
        {
            MC_CHECK(!c.q.empty(), "%s: items lost", what);
            T h = c.q.head(); T x = c.q.dequeue(); step();
            MC_CHECK(key(x) == r.begin()->first && key(h) == key(x), "%s: draining yields %d, smallest is %d", what, key(x), r.begin()->first);
            auto it = r.find({ key(x), id(x) }); MC_CHECK(it != r.end(), "%s: draining yields an item that is not in the queue", what);
            r.erase(it);
        }
        MC_CHECK(c.q.empty(), "%s: more items than enqueued", what);
        MC_CHECK(c.g0 == 0x5e5e5e5e5e5e5e5eull && c.g1 == c.g0, "%s: memory outside changed", what);
    }
    static constexpr int nops = K + 1;
    bool op(int k)
    {
        char what[60];
        if (k == K)
        {
            if (ref.empty()) return false;
            T x = m.q.dequeue(); snprintf(what, sizeof what, "dequeue() -> %d", key(x)); trace("%s", what);
            MC_CHECK(key(x) == ref.begin()->first, "%s but the smallest is %d", what, ref.begin()->first);
            auto it = ref.find({ key(x), id(x) }); MC_CHECK(it != ref.end(), "%s: not an item of the queue", what); ref.erase(it);
        }
        else
        {
            int i = 0; if (std::is_same<T, item>::value) for (bool hit = true; hit;) { hit = false; ++i; for (auto& e : ref) hit |= e.second == i; }
            T x; mk(x, k - 1, i); snprintf(what, sizeof what, "enqueue(%d)", k - 1); trace("%s", what);
            bool ok = m.q.enqueue(x); MC_CHECK(ok == (ref.size() < N), "%s returned %d with %zu of %zu", what, ok, ref.size(), N);
            if (ref.size() < N) ref.insert({ k - 1, i });
        }
        check(what);
        return true;
    }
    static u64 body(unsigned char const* hist, int n, bool& ok)
    {
        world w;
        for (int i = 0; i < n; ++i) if (!w.op(hist[i])) { ok = false; return 0; }
        if (n == 0) w.check("start");
        hasher h; h.b(&m, sizeof m);
        hasher o; for (auto& e : w.ref) o.u(u64(e.first)); outcome(o);
        if (n > 4 && want_sample()) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(hist[i]) + " "; sample("capacity %zu ops %s-> %zu items", N, s.c_str(), w.ref.size()); }
        return h;
    }
};
#define W(NAME, N, T, K, DQ, DT) MC_BFS(NAME, (world<N, T, K>::nops), DQ, DT) { return world<N, T, K>::body(hist, n, ok); }
W(q1, 1, int, 3, 48, 48)
W(q2, 2, int, 4, 48, 48)
W(q3, 3, item, 3, 48, 48)
W(q4, 4, item, 3, 11, 48)
W(q5, 5, item, 2, 10, 14)
W(q6, 6, int, 3, 48, 48)
W(q7, 7, int, 3, 48, 48)
W(q8, 8, int, 2, 48, 48)

template<size_t N> static void drain(std::vector<int> const& in)
{
    struct { unsigned long long g0; ce::min_priority_queue<N, int> q; unsigned long long g1; } m;
    m.g0 = m.g1 = 0x1234; m.q.size = 0;
    for (size_t i = 0; i < N; ++i) { MC_CHECK(m.q.enqueue(in[i]), "enqueue"); step(); }
    MC_CHECK(!m.q.enqueue(-9), "enqueue into a full queue");
    auto s = in; std::sort(s.begin(), s.end());
    for (size_t i = 0; i < N; ++i) { int x = m.q.dequeue(); step(); MC_CHECK(x == s[i], "dequeue %zu gives %d expected %d", i, x, s[i]); if (i == N / 2) { MC_CHECK(m.q.enqueue(x), "enqueue"); MC_CHECK(m.q.dequeue() == x, "re-enqueued smallest item"); } }
    MC_CHECK(m.q.empty() && m.g0 == 0x1234 && m.g1 == 0x1234, "end");
}
template<size_t N> static void perms(u64 lo, u64 hi)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); nontrivial();
        std::vector<int> pool, in; for (size_t k = 0; k < N; ++k) pool.push_back(int(k));
        u64 r = i; for (size_t k = N; k > 0; --k) { in.push_back(pool[r % k]); pool.erase(pool.begin() + long(r % k)); r /= k; }
        if (i % 4096 == 1) { std::string s; for (int v : in) { s += std::to_string(v); s += ' '; } trace("order %s", s.c_str()); hasher h; h.u(i); state(h); }
        drain<N>(in);
    }
}
MC_SWEEP(permutations8, 40320, 40320, 512) { perms<8>(lo, hi); }
MC_SWEEP(permutations10, 0, 3628800, 4096) { perms<10>(lo, hi); }
MC_SWEEP(sequences7, 823543, 823543, 4096)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); nontrivial();
        std::vector<int> in; u64 r = i; for (int k = 0; k < 7; ++k) in.push_back(int(r % 7)), r /= 7;
        drain<7>(in);
    }
}
// large capacities: more than 2^16 and 2^17 items in orders that depend on i, drained with items put back on the way
template<size_t N> static void deep(u64 lo, u64 hi)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); nontrivial();
        static struct { unsigned long long g0; ce::min_priority_queue<N, int> q; unsigned long long g1; } m; m.g0 = m.g1 = 0x77; m.q.size = 0;
        std::multiset<int> ref; u32 r = u32(i);
        for (size_t k = 0; k < N; ++k)
        {
            r = r * 1664525 + 1013904223;
            int v = i == 0 ? int(k) : i == 1 ? int(N - k) : i == 2 ? int(k * 7919 % N) : i == 3 ? int(r >> 28) : int(r >> 1);
            MC_CHECK(m.q.enqueue(v) && m.q.size == k + 1, "enqueue %zu of %zu", k, N); ref.insert(v); step();
            MC_CHECK(m.q.head() == *ref.begin(), "after %zu of %zu the head is %d, the smallest item %d", k + 1, N, m.q.head(), *ref.begin());
        }
        MC_CHECK(!m.q.enqueue(-9) && m.q.size == N, "enqueue into a full queue");
        for (size_t k = 0; !ref.empty(); ++k)
        {
            int x = m.q.dequeue(), w = *ref.begin(); step();
            MC_CHECK(x == w, "dequeue %zu of %zu gives %d, the smallest item is %d", k, N, x, w);
            ref.erase(ref.begin());
            if (k % 5 == 0 && k < N) { r = r * 1664525 + 1013904223; int v = int(r >> 1); MC_CHECK(m.q.enqueue(v), "enqueue"); ref.insert(v); }
            MC_CHECK(m.q.size == ref.size(), "size %zu expected %zu", size_t(m.q.size), ref.size());
        }
        MC_CHECK(m.q.empty() && m.g0 == 0x77 && m.g1 == 0x77, "end");
    }
}
MC_SWEEP(deep300, 5, 50, 1) { deep<300>(lo, hi); }
MC_SWEEP(deep66000, 5, 10, 1) { deep<66000>(lo, hi); }
MC_SWEEP(deep200000, 5, 10, 1) { deep<200000>(lo, hi); }
