//@ level: model_checking
//@ technique: explicit-state model checking of the real pool (BFS over histories of queue and allocation operations to the fixpoint)
//@ note: Every reachable state of pools with 0..4 nodes shared by two or three queues and direct allocations, compared with reference deques after every operation; full exhaust/reuse cycles for the largest 8 and 16 bit pools. Longer lived pools with more nodes follow only by symmetry.
//@ cxx: -O1 -fsanitize=address
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: capacities 1..5, 2 or 3 queues, depth up to the fixpoint (capacity 5: depth 9 quick, 14 thorough); capacities 256/8 bit and 65536/16 bit: complete exhaustion and reuse
//@ assume: state identity is the raw memory of pool and queues plus the reference; item values are the smallest ones not in use, which keeps the space finite without merging distinguishable items
#include "mc.h"
#include "ce/pool.h"
#include <deque>
#include <vector>
#include <cstring>
#include <new>
using namespace mc;

template<size_t N, int Q, class I> struct world
{
    using P = ce::pool<N, int, I>;
    struct mem { unsigned long long g0; P p; typename P::queue_t q[Q]; unsigned long long g1; };
    static inline mem m;
    std::deque<int> ref[Q];
    struct held { size_t node; int v; };
    std::vector<held> own;

    world()
    {
        memset((void*)&m, 0x5e, sizeof m);
        m.p.reset();
        for (auto& q : m.q) new (&q) typename P::queue_t();
    }
    size_t used() const { size_t n = own.size(); for (auto& r : ref) n += r.size(); return n; }
    int fresh() const
    {
        for (int v = 1;; ++v)
        {
            bool in = false;
            for (auto& r : ref) for (int x : r) in |= x == v;
            for (auto& h : own) in |= h.v == v;
            if (!in) return v;
        }
    }
    void check(char const* what)
    {
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull && m.g1 == m.g0, "%s: memory outside the pool changed", what);
        MC_CHECK(P::capacity() == N, "%s: capacity", what);
        std::vector<bool> seen(N + 1, false);
        for (auto& h : own)
        {
            MC_CHECK(h.node > 0 && h.node < N && !seen[h.node], "%s: node %zu is in use twice or outside the pool", what, h.node);
            seen[h.node] = true;
            MC_CHECK(m.p.data[h.node] == h.v, "%s: data of allocated node %zu changed from %d to %d", what, h.node, h.v, m.p.data[h.node]);
        }
        for (int i = 0; i < Q; ++i)
        {
            MC_CHECK(m.p.is_empty(m.q[i]) == ref[i].empty(), "%s: queue %d empty is %d, expected %zu items", what, i, m.p.is_empty(m.q[i]), ref[i].size());
            if (ref[i].empty()) continue;
            MC_CHECK(m.p.head(m.q[i]) == ref[i].front(), "%s: queue %d head is %d expected %d", what, i, m.p.head(m.q[i]), ref[i].front());
            MC_CHECK(m.p.tail(m.q[i]) == ref[i].back(), "%s: queue %d tail is %d expected %d", what, i, m.p.tail(m.q[i]), ref[i].back());
        }
        // drain a copy: the whole content through the public operations, nodes all different
        static mem c;
        memcpy((void*)&c, (void*)&m, sizeof m);
        for (int i = 0; i < Q; ++i)
        {
            for (int v : ref[i])
            {
                MC_CHECK(!c.p.is_empty(c.q[i]) && c.p.head(c.q[i]) == v, "%s: queue %d lost or reordered item %d", what, i, v);
                auto node = size_t(&c.p.head(c.q[i]) - c.p.data);
                MC_CHECK(node > 0 && node < N && !seen[node], "%s: node %zu is in use twice or outside the pool", what, node);
                seen[node] = true;
                MC_CHECK(c.p.remove_head(c.q[i]), "%s: drain", what);
            }
            MC_CHECK(c.p.is_empty(c.q[i]) && !c.p.remove_head(c.q[i]), "%s: queue %d has more items than inserted", what, i);
        }
    }
    static constexpr int per = 4, nops = Q * per + 2 + 4 + 1;
    bool op(int code)
    {
        char what[80]; bool ok = true, want = true;
        if (code < Q * per)
        {
            int i = code / per, k = code % per; auto& q = m.q[i];
            if (k == 0) { int v = fresh(); snprintf(what, sizeof what, "insert_head(q%d, %d)", i, v); trace("%s", what); want = used() < N - 1; ok = m.p.insert_head(q, v); if (want) ref[i].push_front(v); }
            else if (k == 1) { int v = fresh(); snprintf(what, sizeof what, "append_tail(q%d, %d)", i, v); trace("%s", what); want = used() < N - 1; ok = m.p.append_tail(q, v); if (want) ref[i].push_back(v); }
            else if (k == 2) { snprintf(what, sizeof what, "remove_head(q%d)", i); trace("%s", what); want = !ref[i].empty(); ok = m.p.remove_head(q); if (want) ref[i].pop_front(); }
            else { if (!ref[i].empty()) return false; snprintf(what, sizeof what, "q%d.reset()", i); trace("%s", what); q.reset(); }
        }
        else if ((code -= Q * per) == 0)
        {
            int v = fresh(); snprintf(what, sizeof what, "alloc_index()"); trace("%s", what);
            want = used() < N - 1; auto n = m.p.alloc_index(); ok = n != 0;
            if (ok) { MC_CHECK(size_t(n) < N, "alloc_index gave %zu in a pool of %zu", size_t(n), N); if (want) { own.push_back({ size_t(n), v }); m.p.data[n] = v; } }
        }
        else if (code == 1) { snprintf(what, sizeof what, "free_index(0)"); trace("%s", what); m.p.free_index(0); }
        else if (code < 6)
        {
            size_t i = size_t(code - 2); if (i >= own.size()) return false;
            snprintf(what, sizeof what, "free_index(%zu)", own[i].node); trace("%s", what);
            auto n = own[i].node; own.erase(own.begin() + long(i)); m.p.free_index(I(n));
        }
        else
        {
            snprintf(what, sizeof what, "reset()"); trace("%s", what);
            m.p.reset(); for (auto& q : m.q) q.reset(); for (auto& r : ref) r.clear(); own.clear();
        }
        MC_CHECK(ok == want, "%s returned %d with %zu of %zu nodes in use", what, ok, used(), N - 1);
        check(what);
        return true;
    }
    static u64 body(unsigned char const* hist, int n, bool& ok)
    {
        world w; w.check("reset");
        for (int i = 0; i < n; ++i) if (!w.op(hist[i])) { ok = false; return 0; }
        hasher h; h.b(&m, sizeof m); for (auto& x : w.own) h.u(x.node), h.u(u64(x.v));
        hasher o; for (auto& r : w.ref) { o.u(r.size()); for (int v : r) o.u(u64(v)); } o.u(w.own.size()); outcome(o);
        if (n > 4 && want_sample()) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(hist[i]) + " "; sample("pool<%zu> ops %s-> %zu nodes in use", N, s.c_str(), w.used()); }
        return h;
    }
};
#define W(NAME, N, Q, I, DQ, DT) MC_BFS(NAME, (world<N, Q, I>::nops), DQ, DT) { return world<N, Q, I>::body(hist, n, ok); }
W(pool1, 1, 2, ce::uint16_t, 40, 40)
W(pool2, 2, 2, ce::uint16_t, 40, 40)
W(pool3, 3, 2, ce::uint16_t, 40, 40)
W(pool4, 4, 2, ce::uint16_t, 40, 40)
W(pool4q3, 4, 3, ce::uint8_t, 40, 40)
W(pool5, 5, 2, ce::uint32_t, 9, 40)

template<size_t N, class I> static void big(u64 mode)
{
    using P = ce::pool<N, unsigned, I>;
    static P p; typename P::queue_t q, q2;
    memset((void*)&p, 0x77, sizeof p);
    p.reset();
    std::vector<bool> seen(N, false); std::vector<I> got;
    for (size_t i = 0; i < N - 1; ++i)
    {
        auto n = p.alloc_index(); step();
        MC_CHECK(n != 0 && size_t(n) < N && !seen[n], "allocation %zu of %zu gave node %zu", i, N - 1, size_t(n));
        seen[n] = true; got.push_back(n);
    }
    MC_CHECK(p.alloc_index() == 0 && p.alloc_index() == 0, "allocation from an exhausted pool of %zu", N);
    MC_CHECK(!p.append_tail(q, 1u) && !p.insert_head(q, 1u) && p.is_empty(q), "insertion into an exhausted pool");
    // give back in some order, then fill two queues alternately
    for (size_t i = 0; i < got.size(); ++i) p.free_index(mode == 0 ? got[i] : mode == 1 ? got[got.size() - 1 - i] : got[(i * 2) % (got.size() | 1) % got.size()]), step();
    if (mode == 2) { p.reset(); }
    std::deque<unsigned> r, r2;
    for (size_t i = 0; i < N - 1; ++i)
    {
        step(); bool ok;
        if (i % 3 == 0) { ok = p.insert_head(q, unsigned(i)); r.push_front(unsigned(i)); }
        else if (i % 3 == 1) { ok = p.append_tail(q, unsigned(i)); r.push_back(unsigned(i)); }
        else { ok = p.append_tail(q2, unsigned(i)); r2.push_back(unsigned(i)); }
        MC_CHECK(ok, "insertion %zu into a pool of %zu failed", i, N);
        if (i % 5 == 4 && !r.empty()) { MC_CHECK(p.head(q) == r.front() && p.remove_head(q), "remove"); r.pop_front(); MC_CHECK(p.append_tail(q2, unsigned(i + N)), "reuse of a removed node"); r2.push_back(unsigned(i + N)); }
    }
    MC_CHECK(!p.append_tail(q, 1u), "pool of %zu holds more than it should", N);
    for (auto* x : { &r, &r2 })
    {
        auto& y = x == &r ? q : q2;
        while (!x->empty()) { step(); MC_CHECK(!p.is_empty(y) && p.head(y) == x->front() && p.tail(y) == x->back(), "queue content at %zu left", x->size()); x->pop_front(); MC_CHECK(p.remove_head(y), "remove"); }
        MC_CHECK(p.is_empty(y) && !p.remove_head(y), "queue not empty");
    }
    for (size_t i = 0; i < N - 1; ++i) MC_CHECK(p.append_tail(q, unsigned(i)), "refill %zu", i);
    MC_CHECK(!p.append_tail(q, 0u), "refill beyond capacity");
}
MC_SWEEP(largest_pools, 9, 9, 1)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); nontrivial(); hasher h; h.u(i); state(h); outcome(h);
        if (i / 3 == 0) big<256, ce::uint8_t>(i % 3); else if (i / 3 == 1) big<65536, ce::uint16_t>(i % 3); else big<70000, ce::uint32_t>(i % 3);
    }
}
