//@ level: model_checking
//@ technique: explicit-state model checking of the real container (BFS over operation histories against a reference sequence)
//@ note: Every history of the operation alphabet on two real bulk objects up to the stated depth (to the fixpoint of reachable states where the run says complete), every result compared with a reference sequence, guards and AddressSanitizer around the objects. Values outside the small alphabet and capacities other than 0,1,2,3,4,300,70000 are not explored.
//@ cxx: -O1 -fsanitize=address
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: capacities 1..4 with two containers, BFS depth 7 (quick) / 12 (thorough) or fixpoint; capacity 300: every size and position; capacity 70000 at the sizes around 2^8, 2^15, 2^16; every operation at 13 sizes and 14 places of capacity 70000
//@ assume: state identity is the raw memory of both containers plus the reference contents
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
#include <new>
using namespace mc;

struct big { int a; double mid; int b; };
struct nt
{
    int v;
    nt() : v(7) {}
    nt(int x) : v(x) {}
    nt(nt const& o) : v(o.v) {}
    nt(nt&& o) : v(o.v) { o.v = -1; }
    nt& operator=(nt const& o) { v = o.v; return *this; }
    nt& operator=(nt&& o) { v = o.v; if (&o != this) o.v = -1; return *this; }
    ~nt() { v = -2; }
};
static int val(int x) { return x; }
static int val(unsigned char x) { return x; }
static int val(big const& x) { return x.a == x.b - 1000 ? x.a : -99; }
static int val(nt const& x) { return x.v; }
static void put(int& d, int v) { d = v; }
static void put(unsigned char& d, int v) { d = (unsigned char)v; }
static void put(big& d, int v) { d.a = v; d.b = v + 1000; }
static void put(nt& d, int v) { d.v = v; }
template<class T> constexpr bool defaulted = false;
template<> constexpr bool defaulted<nt> = true;

template<size_t N, class B> static bool app(B& b, int v, int*) { return b.append(v); }
template<size_t N, class B> static bool app(B& b, int v, unsigned char*) { return b.append((unsigned char)v); }
template<size_t N, class B> static bool app(B& b, int v, big*) { big x{}; put(x, v); return b.append(x.a, 1.5, x.b); }
template<size_t N, class B> static bool app(B& b, int v, nt*) { return b.append(v); }

using vec_t = std::vector<int>;

template<size_t N, class T> struct world
{
    using B = ce::bulk<N, T>;
    struct mem { unsigned long long g0; alignas(16) char a[sizeof(B)]; unsigned long long g1; alignas(16) char b[sizeof(B)]; unsigned long long g2; };
    alignas(64) static inline mem m;
    static B& obj(int w) { return *reinterpret_cast<B*>(w ? m.b : m.a); }
    vec_t ref[2];

    world()
    {
        memset(&m, 0x5e, sizeof m);
        for (int w = 0; w < 2; ++w) new (&obj(w)) B();
    }
    ~world() { for (int w = 0; w < 2; ++w) obj(w).~B(); guards("destruction"); }
    void guards(char const* what)
    {
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull && m.g1 == m.g0 && m.g2 == m.g0, "memory outside the container changed by %s", what);
    }

    void check(int w, char const* what)
    {
        B& b = obj(w); B const& c = b; vec_t const& r = ref[w];
        MC_CHECK(b.size == r.size(), "%s: container %d has size %zu, expected %zu", what, w, size_t(b.size), r.size());
        MC_CHECK(b.room() == N - r.size() && B::capacity() == N, "%s: room %zu capacity %zu", what, size_t(b.room()), size_t(B::capacity()));
        size_t i = 0;
        for (auto& x : b) { MC_CHECK(i < r.size() && val(x) == r[i], "%s: container %d element %zu differs", what, w, i); ++i; }
        MC_CHECK(i == r.size(), "%s: iteration stops at %zu", what, i);
        i = 0;
        for (auto& x : c) { MC_CHECK(i < r.size() && val(x) == r[i], "%s: const container %d element %zu differs", what, w, i); ++i; }
        MC_CHECK(i == r.size(), "%s: const iteration stops at %zu", what, i);
        for (i = 0; i < r.size(); ++i)
            MC_CHECK(val(b[i]) == r[i] && val(c[i]) == r[i] && &b[i] == b.begin() + i && &c[i] == c.begin() + i, "%s: index %zu is %d expected %d", what, i, val(b[i]), r[i]);
        auto s = make_span(b); auto t = make_span(c);
        MC_CHECK(s.size == r.size() && t.size == r.size(), "%s: span size", what);
        if (N > 0) MC_CHECK(s.data == b.begin() && t.data == c.begin(), "%s: span start", what);
        if (!r.empty()) MC_CHECK(val(b.back()) == r.back() && val(c.back()) == r.back() && &b.back() == b.end() - 1 && &c.back() == c.end() - 1, "%s: back", what);
        if (!r.empty()) MC_CHECK((void*)b.begin() >= (void*)&b && (void*)b.end() <= (void*)(&b + 1), "%s: storage outside the object", what);
        guards(what);
    }

    // grown elements of trivial types have no value until the caller writes them
    void grown(int w, size_t from)
    {
        B& b = obj(w);
        for (size_t i = from; i < b.size && i < N; ++i)
        {
            if (defaulted<T>) { ref[w].push_back(7); }
            else { put(b[i], 3); ref[w].push_back(3); }
        }
    }

    // per container: 2 append, append(own front), N+3 append_n, N+3 resize, clear, 2*(N+2) remove, assign other, assign self, copy construct from other
    static constexpr int per = 2 + 1 + int(N + 3) + int(N + 3) + 1 + 2 * int(N + 2) + 3;
    static constexpr int nops = 2 * per;

    bool op(int code)
    {
        int w = code / per, k = code % per;
        B& b = obj(w); B& o = obj(!w); vec_t& r = ref[w];
        char what[100];
        auto full = [&] { return r.size() == N; };
        if (k < 2)
        {
            int v = k + 1; snprintf(what, sizeof what, "c%d.append(%d)", w, v); trace("%s", what);
            bool ok = app<N>(b, v, (T*)nullptr);
            MC_CHECK(ok == !full(), "%s returned %d with %zu of %zu", what, ok, r.size(), N);
            if (!full()) r.push_back(v);
        }
        else if ((k -= 2) < 1)
        {
            if (r.empty() || N < 2) return false;
            snprintf(what, sizeof what, "c%d.append(c%d[0])", w, w); trace("%s", what);
            bool ok = b.append(static_cast<B const&>(b)[0]);
            MC_CHECK(ok == !full(), "%s returned %d", what, ok);
            if (!full()) r.push_back(int(r[0]));
        }
        else if ((k -= 1) < int(N + 3))
        {
            size_t n = k < int(N + 2) ? size_t(k) : ~size_t(0) - (r.size() ? 1 : 0);
            snprintf(what, sizeof what, "c%d.append_n(%zu)", w, n); trace("%s", what);
            size_t from = r.size();
            bool ok = n == 1 ? b.append_n() : b.append_n(n);
            MC_CHECK(ok == (n <= N - from), "%s returned %d with %zu of %zu", what, ok, from, N);
            MC_CHECK(b.size == from + (ok ? n : 0), "%s left size %zu", what, size_t(b.size));
            grown(w, from);
        }
        else if ((k -= int(N + 3)) < int(N + 3))
        {
            size_t n = k < int(N + 2) ? size_t(k) : ~size_t(0);
            snprintf(what, sizeof what, "c%d.resize(%zu)", w, n); trace("%s", what);
            size_t from = r.size();
            bool ok = b.resize(n);
            MC_CHECK(ok == (n <= N), "%s returned %d", what, ok);
            MC_CHECK(b.size == (ok ? n : from), "%s left size %zu", what, size_t(b.size));
            if (ok && n < from) r.resize(n); else grown(w, from);
        }
        else if ((k -= int(N + 3)) < 1) { snprintf(what, sizeof what, "c%d.clear()", w); trace("%s", what); b.clear(); r.clear(); }
        else if ((k -= 1) < 2 * int(N + 2))
        {
            bool ordered = k >= int(N + 2); size_t i = size_t(k) % (N + 2); if (i == N + 1) i = ~size_t(0);
            snprintf(what, sizeof what, "c%d.remove_at<%d>(%zu)", w, ordered, i); trace("%s", what);
            bool ok = ordered ? b.template remove_at<true>(i) : b.remove_at(i);
            MC_CHECK(ok == (i < r.size()), "%s returned %d with size %zu", what, ok, r.size());
            if (i < r.size()) { if (ordered) r.erase(r.begin() + long(i)); else { r[i] = r.back(); r.pop_back(); } }
        }
        else if ((k -= 2 * int(N + 2)) == 0) { snprintf(what, sizeof what, "c%d = c%d", w, !w); trace("%s", what); B& x = (b = o); MC_CHECK(&x == &b, "assignment returns another object"); r = ref[!w]; }
        else if (k == 1) { snprintf(what, sizeof what, "c%d = c%d", w, w); trace("%s", what); b = static_cast<B const&>(b); }
        else
        {
            snprintf(what, sizeof what, "c%d reconstructed from c%d", w, !w); trace("%s", what);
            b.~B(); memset((void*)&b, 0x5e, sizeof b);
            new (&b) B(static_cast<B const&>(o)); r = ref[!w];
        }
        check(w, what); check(!w, what);
        return true;
    }
    u64 canon() { hasher h; h.b(&m, sizeof m); for (auto& r : ref) { h.u(r.size()); for (int v : r) h.u(u64(v)); } return h; }

    static u64 body(unsigned char const* hist, int n, bool& ok)
    {
        world w;
        w.check(0, "construction"); w.check(1, "construction");
        for (int i = 0; i < n; ++i) if (!w.op(hist[i])) { ok = false; return 0; }
        u64 c = w.canon();
        if (n > 4 && want_sample()) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(hist[i]) + " "; sample("bulk<%zu> ops %s-> sizes %zu,%zu", N, s.c_str(), w.ref[0].size(), w.ref[1].size()); }
        hasher o; for (auto& r : w.ref) { o.u(r.size()); for (int v : r) o.u(u64(v)); } outcome(o);
        return c;
    }
};
#define W(NAME, N, T, DQ, DT) MC_BFS(NAME, (world<N, T>::nops), DQ, DT) { return world<N, T>::body(hist, n, ok); }
W(int1, 1, int, 40, 40)
W(int2, 2, int, 40, 40)
W(int3, 3, int, 40, 40)
W(int4, 4, int, 6, 8)
W(char3, 3, unsigned char, 40, 40)
W(char8, 8, unsigned char, 4, 5)
W(big2, 2, big, 40, 40)
W(class1, 1, nt, 40, 40)
W(class2, 2, nt, 40, 40)
W(class3, 3, nt, 40, 40)
W(class4, 4, nt, 6, 8)

// capacity 0: nothing ever fits
MC_DFS(capacity0)
{
    static ce::bulk<0, int> a; static ce::bulk<0, int> b;
    new (&a) ce::bulk<0, int>(); new (&b) ce::bulk<0, int>();
    for (int i = 0; i < 4; ++i)
    {
        int k = choose(8); step();
        bool ok = false, want = false;
        switch (k)
        {
        case 0: ok = a.append(1); break;
        case 1: ok = a.append_n(1); break;
        case 2: ok = a.append_n(0); want = true; break;
        case 3: ok = a.resize(0); want = true; break;
        case 4: ok = a.resize(1); break;
        case 5: ok = a.remove_at(0); break;
        case 6: a = b; break;
        case 7: a.clear(); break;
        }
        MC_CHECK(ok == want && a.size == 0 && a.room() == 0 && a.begin() == a.end(), "capacity 0 op %d returned %d size %zu", k, ok, size_t(a.size));
        hasher h; h.u(u64(k)); h.u(u64(i)); state(h); outcome(h);
    }
}

// larger capacity: every size, every target, every position
using B300 = ce::bulk<300, int>;
static void same(B300& b, vec_t const& r, char const* what, size_t i)
{
    MC_CHECK(b.size == r.size(), "%s(%zu): size %zu expected %zu", what, i, size_t(b.size), r.size());
    for (size_t k = 0; k < r.size(); ++k) MC_CHECK(b[k] == r[k], "%s(%zu): element %zu is %d expected %d", what, i, k, b[k], r[k]);
}
MC_SWEEP(capacity300, 301, 301, 8)
{
    for (u64 n = lo; n < hi; ++n)
    {
        at(n); step(); nontrivial(); hasher h; h.u(n); state(h); outcome(h);
        static B300 b; new (&b) B300();
        vec_t r;
        for (u64 i = 0; i < n; ++i) { MC_CHECK(b.append(int(i * 7)), "append %llu", i); r.push_back(int(i * 7)); }
        same(b, r, "fill", n);
        for (size_t i = 0; i <= n + 1; ++i)
        {
            step(4);
            B300 c(b); vec_t q = r;
            bool ok = c.remove_at(i); MC_CHECK(ok == (i < n), "remove_at(%zu) of %llu", i, n);
            if (ok) { q[i] = q.back(); q.pop_back(); }
            same(c, q, "remove_at", i);
            B300 d(b); q = r;
            ok = d.remove_at<true>(i); MC_CHECK(ok == (i < n), "ordered remove_at(%zu) of %llu", i, n);
            if (ok) q.erase(q.begin() + long(i));
            same(d, q, "ordered remove_at", i);
            c = b; same(c, r, "assign longer", i);
            MC_CHECK(c.resize(i) == (i <= 300), "resize(%zu)", i); q = r; if (i < n) q.resize(i);
            if (i > 300) q = r; else for (size_t k = q.size(); k < i; ++k) { c[k] = -5; q.push_back(-5); }
            same(c, q, "resize", i);
            c = b; same(c, r, "assign after resize", i);
        }
        for (size_t k : { size_t(300 - n), size_t(301 - n), ~size_t(0), ~size_t(0) - size_t(n), ~size_t(0) - size_t(n) + 1 })
        {
            B300 c(b); bool ok = c.append_n(k);
            MC_CHECK(ok == (k <= 300 - n) && c.size == n + (ok ? k : 0), "append_n(%zu) with %llu of 300 gave %d size %zu", k, n, ok, size_t(c.size));
        }
    }
}
using B70k = ce::bulk<70000, unsigned short>;
MC_SWEEP(capacity70000, 8, 8, 1)
{
    for (u64 n = lo; n < hi; ++n)
    {
        at(n); step(70000); nontrivial(); hasher h; h.u(n); state(h); outcome(h);
        static B70k b, c; new (&b) B70k(); new (&c) B70k();
        static size_t const cut[] = { 255, 256, 257, 32768, 65535, 65536, 65537, 70000 };
        size_t k = cut[n];
        for (size_t i = 0; i < k; ++i) { MC_CHECK(b.append((unsigned short)(i * 31)), "append %zu", i); MC_CHECK(b.size == i + 1, "size %zu after %zu appends", size_t(b.size), i + 1); }
        MC_CHECK(b.append((unsigned short)1) == (k < 70000), "append at %zu", k); if (k < 70000) b.resize(k);
        c = b;
        for (size_t i = 0; i < k; ++i) MC_CHECK(c[i] == (unsigned short)(i * 31), "copy differs at %zu", i);
        MC_CHECK(c.size == k && c.remove_at<true>(1) && c.size == k - 1, "ordered remove");
        for (size_t i = 1; i + 1 < k; ++i) MC_CHECK(c[i] == (unsigned short)((i + 1) * 31), "ordered remove lost element %zu", i);
        MC_CHECK(c.append_n(70000 - c.size) && c.room() == 0 && !c.append_n(1) && !c.resize(70001) && c.resize(0), "limits");
    }
}
// the same operations at every place around the limits of 8 and 16 bit sizes
static void same70k(B70k& b, std::vector<unsigned short> const& r, char const* what, size_t at)
{
    step(r.size()); B70k const& c = b; size_t n = r.size();
    MC_CHECK(b.size == n && b.room() == 70000 - n && B70k::capacity() == 70000 && size_t(b.end() - b.begin()) == n && size_t(c.end() - c.begin()) == n, "%s %zu: size %zu room %zu, expected %zu", what, at, size_t(b.size), size_t(b.room()), n);
    auto s = make_span(b); auto t = make_span(c); MC_CHECK(s.size == n && t.size == n && s.data == b.begin() && t.data == c.begin(), "%s %zu: span", what, at);
    for (size_t i = 0; i < n; ++i) MC_CHECK(b[i] == r[i] && c[i] == r[i] && &b[i] == b.begin() + i && &c[i] == c.begin() + i, "%s %zu: element %zu of %zu is %u, expected %u", what, at, i, n, b[i], r[i]);
    if (n) MC_CHECK(&b.back() == b.begin() + (n - 1) && &c.back() == c.begin() + (n - 1), "%s %zu: back", what, at);
}
MC_SWEEP(operations70000, 13 * 14, 13 * 14, 1)
{
    static size_t const sizes[] = { 0, 1, 254, 255, 256, 257, 32768, 65534, 65535, 65536, 65537, 69999, 70000 };
    for (u64 n = lo; n < hi; ++n)
    {
        at(n); nontrivial(); hasher h; h.u(n); state(h); outcome(h);
        static B70k b, c; new (&b) B70k(); new (&c) B70k(); size_t k = sizes[n % 13], p = n / 13 < 13 ? sizes[n / 13] : k / 2;
        std::vector<unsigned short> r; auto put = [&](size_t i) { b[i] = (unsigned short)(i * 40503 >> 3); r.push_back(b[i]); };
        bool ok = b.resize(k); MC_CHECK(ok, "resize"); for (size_t i = 0; i < k; ++i) put(i);
        same70k(b, r, "resize to", k);
        ok = c.append_n(p); MC_CHECK(ok && c.size == p, "append_n(%zu)", p); for (size_t i = 0; i < p; ++i) c[i] = (unsigned short)i;
        c = b; same70k(c, r, "assignment over", p);
        new (&c) B70k(b); same70k(c, r, "copy of", k);
        std::vector<unsigned short> q = r; ok = c.remove_at(p); MC_CHECK(ok == (p < k), "remove_at(%zu) of %zu", p, k); if (ok) q[p] = q.back(), q.pop_back(); same70k(c, q, "remove_at", p);
        c = b; q = r; ok = c.remove_at<true>(p); MC_CHECK(ok == (p < k), "ordered remove_at(%zu) of %zu", p, k); if (ok) q.erase(q.begin() + long(p)); same70k(c, q, "ordered remove_at", p);
        c = b; q = r; ok = c.append((unsigned short)7777); MC_CHECK(ok == (k < 70000), "append to %zu", k); if (ok) q.push_back(7777); same70k(c, q, "append to", k);
        c = b; q = r; ok = c.append_n(p); MC_CHECK(ok == (p <= 70000 - k), "append_n(%zu) to %zu", p, k); if (ok) for (size_t i = 0; i < p; ++i) c[k + i] = (unsigned short)i, q.push_back((unsigned short)i); same70k(c, q, "append_n", p);
        c = b; q = r; ok = c.resize(p); MC_CHECK(ok, "resize(%zu)", p); if (p < k) q.resize(p); else for (size_t i = k; i < p; ++i) c[i] = 3, q.push_back(3); same70k(c, q, "resize", p);
        for (size_t x : { size_t(70001), size_t(65536 + 70000), size_t(1) << 16, (size_t(1) << 16) + 65536, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0), ~size_t(0) - k, ~size_t(0) - k + 1 })
        {
            size_t m = c.size; if (x > 70000) MC_CHECK(!c.resize(x) && c.size == m, "resize(%zu)", x); if (x > 70000 - m) MC_CHECK(!c.append_n(x) && c.size == m, "append_n(%zu) to %zu", x, m);
            if (x >= m) MC_CHECK(!c.remove_at(x) && !c.remove_at<true>(x) && c.size == m, "remove_at(%zu) of %zu", x, m);
        }
        same70k(c, q, "refused operations on", p);
        c.clear(); q.clear(); same70k(c, q, "clear of", p);
    }
}
