//@ level: model_checking
//@ technique: explicit-state model checking of the real dictionary (BFS over histories against a reference map)
//@ note: Every history of bind, rebind, write through handle and name over one more name than fits, for capacities 1..6 and three name types, to the fixpoint of reachable states; every name is looked up after every step. Value lifetimes are counted for a non-trivial value type.
//@ cxx: -O1 -fsanitize=address
//@ bounds: capacities 1..6, names: one more than capacity (the default value among them), two values; search heaps of 1..6 names in front of the histories and of every size up to 298; capacity 300: sequential fill, rebind and lookup of every name; 65999 names
//@ assume: names are inserted into a zero initialised dictionary, as its aggregate form requires
#include "mc.h"
#include "ce/dictionary.h"
#include <map>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <utility>
#include <type_traits>
using namespace mc;
static int reports; static bool asked;
namespace ce { namespace os { void log(int, int, char const* [][2]) { } bool error(int, int, char const* [][2]) { if (!asked) return true; ++reports; return false; } } }
template<class F> static int reported(F f) { reports = 0; asked = true; f(); asked = false; return reports; }

struct key // only the operators a name needs
{
    int a; short b;
    friend bool operator==(key const& x, key const& y) { return x.a == y.a && x.b == y.b; }
    friend bool operator>=(key const& x, key const& y) { return x.a != y.a ? x.a > y.a : x.b >= y.b; }
};
static int alive; // number of live values
struct val
{
    int v; val* self;
    val() : v(0), self(this) { ++alive; }
    val(int x) : v(x), self(this) { ++alive; }
    val(int x, int y) : v(x + y - 1), self(this) { ++alive; }
    val(val const&) = delete;
    val& operator=(val const&) = delete;
    ~val() { MC_CHECK(self == this, "a value that is not alive is destroyed"); self = nullptr; --alive; }
};
static int get(int x) { return x; }
static int get(val const& x) { MC_CHECK(x.self == &x, "a value is not alive"); return x.v; }
static void put(int& d, int v) { d = v; }
static void put(val& d, int v) { d.v = v; }
// name number 0 is the default value of the type
template<class K> static K nth(int i);
template<> int nth<int>(int i) { static int const t[] = { 0, 1, -5, 7, 1000000, 2, 3, 4 }; return t[i]; }
template<> unsigned char nth<unsigned char>(int i) { static unsigned char const t[] = { 0, 255, 1, 128, 2, 64, 65, 66 }; return t[i]; }
template<> key nth<key>(int i) { static key const t[] = { {0, 0}, {0, 1}, {1, 0}, {1, 1}, {-1, 0}, {2, 2}, {3, 3}, {4, 4} }; return t[i]; }

template<class D, class = void> struct laid_out { template<class F> static bool fill(D&, int, F) { return false; } };
// the first n names as a search heap: below names[i] the greater names start at 2 i, the smaller ones at 2 i + 1
template<class D> struct laid_out<D, std::void_t<decltype(D::heap), decltype(D::names), decltype(D::data), decltype(D::size)>>
{
    template<class F> static void in_order(D& d, int n, int i, int& next, F& sorted) { if (i > n) return; in_order(d, n, 2 * i + 1, next, sorted); d.names[i] = sorted(next++); in_order(d, n, 2 * i, next, sorted); }
    template<class F> static bool fill(D& d, int n, F sorted) { int next = 0; in_order(d, n, 1, next, sorted); d.heap = d.size = decltype(d.size)(n + 1); return true; }
};
// H names are there from the start, laid out as the heap member says
template<int N, class T, class K, int H = 0> struct world
{
    using D = ce::dictionary<N, T, K>;
    using ptr_t = typename D::ptr_t;
    static constexpr int NK = N + 1;
    struct mem { unsigned long long g0; alignas(16) char d[sizeof(D)]; unsigned long long g1; };
    alignas(64) static inline mem m;
    static D& d() { return *reinterpret_cast<D*>(m.d); }
    struct ent { ptr_t p; int v; };
    std::map<int, ent> ref;

    world() { memset(&m, 0x5e, sizeof m); memset(m.d, 0, sizeof m.d); alive = 0; new (m.d) D{};
        if (H == 0) return;
        std::vector<int> order; for (int k = 0; k < NK && int(order.size()) < H; ++k) if (k != 1) order.push_back(k);
        for (size_t a = 0; a < order.size(); ++a) for (size_t b = a + 1; b < order.size(); ++b) if (nth<K>(order[a]) >= nth<K>(order[b])) std::swap(order[a], order[b]);
        if (!laid_out<D>::fill(d(), H, [&](int i) { return nth<K>(order[size_t(i)]); })) return;
        for (int k : order) { auto p = d().find(nth<K>(k)); MC_CHECK(p != ptr_t::nil, "name %d of a search heap of %d is not found", k, H); put(d()[p], 6); ref[k] = { p, 6 }; }
    }
    ~world() { d().~D(); MC_CHECK(alive == 0, "%d values left alive", alive); }

    void check(char const* what)
    {
        D& x = d(); D const& c = x;
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull && m.g1 == m.g0, "%s: memory outside the dictionary changed", what);
        if (std::is_same<T, val>::value) MC_CHECK(alive == N, "%s: %d values alive in a dictionary of %d", what, alive, N);
        for (int k = 0; k < NK; ++k)
        {
            auto p = c.find(nth<K>(k)); auto it = ref.find(k);
            if (it == ref.end()) 
            {
                MC_CHECK(p == ptr_t::nil, "%s: unbound name %d is found", what, k); int a = reported([&] { (void)x[nth<K>(k)]; }), b = reported([&] { (void)c[nth<K>(k)]; });
                MC_CHECK(a == 1 && b == 1, "%s: indexing by the unbound name %d is reported %d times, in a constant dictionary %d times", what, k, a, b); continue;
            }
            MC_CHECK(p == it->second.p, "%s: handle of name %d changed from %u to %u", what, k, unsigned(it->second.p), unsigned(p));
            MC_CHECK(p != ptr_t::nil, "%s: nil handle", what);
            MC_CHECK(get(x[p]) == it->second.v && get(c[p]) == it->second.v && get(x[nth<K>(k)]) == it->second.v && get(c[nth<K>(k)]) == it->second.v, "%s: value of name %d is %d expected %d", what, k, get(x[p]), it->second.v);
            for (auto& e : ref) if (e.first != k) MC_CHECK(e.second.p != p && &x[e.second.p] != &x[p], "%s: names %d and %d share a handle", what, k, e.first);
        }
        for (unsigned h = 0; h < unsigned(N); ++h)
        {
            bool given = false; for (auto& e : ref) given |= unsigned(e.second.p) == h;
            int want = given ? 0 : 1, a = reported([&] { (void)x[ptr_t(h)]; }), b = reported([&] { (void)c[ptr_t(h)]; });
            MC_CHECK(a == want && b == want, "%s: indexing by the handle %u, which was %sgiven out, is reported %d times, in a constant dictionary %d times", what, h, given ? "" : "not ", a, b);
        }
    }
    static constexpr int nops = NK * 5;
    bool op(int code)
    {
        D& x = d(); int k = code / 5, a = code % 5; char what[80];
        auto it = ref.find(k);
        if (a < 3)
        {
            int v = a + 1; snprintf(what, sizeof what, "bind(name %d, %d)", k, v); trace("%s", what);
            auto p = bind(x, nth<K>(k), v, (T*)nullptr);
            if (it != ref.end()) { MC_CHECK(p == it->second.p, "%s: rebinding gave handle %u instead of %u", what, unsigned(p), unsigned(it->second.p)); it->second.v = v; }
            else if (int(ref.size()) >= N - 1) MC_CHECK(p == ptr_t::nil, "%s: full dictionary of %d gave handle %u", what, N, unsigned(p));
            else { MC_CHECK(p != ptr_t::nil, "%s: failed with %zu of %d names", what, ref.size(), N - 1); ref[k] = { p, v }; }
        }
        else
        {
            if (it == ref.end()) return false;
            snprintf(what, sizeof what, a == 3 ? "d[handle of %d] = 4" : "d[name %d] = 5", k); trace("%s", what);
            if (a == 3) put(x[it->second.p], 4); else put(x[nth<K>(k)], 5);
            it->second.v = a + 1;
        }
        check(what);
        return true;
    }
    static ptr_t bind(D& x, K k, int v, int*) { return x.bind(k, v); }
    static ptr_t bind(D& x, K k, int v, val*) { return v == 2 ? x.bind(k, 1, 2) : x.bind(k, v); }

    static u64 body(unsigned char const* hist, int n, bool& ok)
    {
        world w; w.check("construction");
        for (int i = 0; i < n; ++i) if (!w.op(hist[i])) { ok = false; return 0; }
        hasher h; h.b(m.d, sizeof m.d);
        hasher o; for (auto& e : w.ref) o.u(u64(e.first)), o.u(u64(e.second.v)); outcome(o);
        if (n > 3 && want_sample()) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(hist[i]) + " "; sample("dictionary<%d> ops %s-> %zu names bound", N, s.c_str(), w.ref.size()); }
        return h;
    }
};
#define W(NAME, N, T, K, DQ, DT) MC_BFS(NAME, (world<N, T, K>::nops), DQ, DT) { return world<N, T, K>::body(hist, n, ok); }
W(d1, 1, int, int, 40, 40)
W(d2, 2, int, int, 40, 40)
W(d3, 3, val, int, 40, 40)
W(d4, 4, int, unsigned char, 40, 40)
W(d4v, 4, val, key, 40, 40)
W(d5, 5, int, key, 6, 40)
W(d6, 6, int, int, 5, 8)
#define WH(NAME, N, T, K, H, DQ, DT) MC_BFS(NAME, (world<N, T, K, H>::nops), DQ, DT) { return world<N, T, K, H>::body(hist, n, ok); }
WH(heap_2_1, 2, int, int, 1, 40, 40)
WH(heap_4_2, 4, int, int, 2, 40, 40)
WH(heap_4_3, 4, val, key, 3, 40, 40)
WH(heap_6_3, 6, int, unsigned char, 3, 4, 6)
WH(heap_7_6, 7, int, int, 6, 3, 5)

// every name of a search heap of any size, and the names around them
MC_SWEEP(heaps, 298, 298, 8)
{
    for (u64 s = lo; s < hi; ++s)
    {
        at(s); using D = ce::dictionary<300, int, int>; static D d; memset((void*)&d, 0, sizeof d); int n = int(s) + 1;
        if (!laid_out<D>::fill(d, n, [&](int i) { return i * 3 - 100; })) return;
        std::vector<char> seen(300);
        for (int i = 0; i < n; ++i)
        {
            auto p = d.find(i * 3 - 100); MC_CHECK(p != D::ptr_t::nil && unsigned(p) < 300 && !seen[unsigned(p)], "name %d of a search heap of %d names", i, n); seen[unsigned(p)] = 1;
            MC_CHECK(d.find(i * 3 - 99) == D::ptr_t::nil && d.find(i * 3 - 101) == D::ptr_t::nil, "a name next to name %d is found in a search heap of %d names", i, n); d[p] = i; step(3);
        }
        for (int i = n; i < 299; ++i) { auto p = d.bind(i * 3 - 100, i); MC_CHECK(p != D::ptr_t::nil && !seen[unsigned(p)], "binding name %d behind a search heap of %d", i, n); seen[unsigned(p)] = 1; step(); }
        MC_CHECK(d.bind(9999, 1) == D::ptr_t::nil, "bind beyond capacity behind a search heap of %d", n);
        for (int i = 0; i < 299; ++i) { MC_CHECK(d[i * 3 - 100] == i && d.bind(i * 3 - 100, i + 1) == d.find(i * 3 - 100) && d[i * 3 - 100] == i + 1, "name %d behind a search heap of %d", i, n); step(); }
        nontrivial();
    }
}

MC_SWEEP(large, 300, 300, 8)
{
    for (u64 s = lo; s < hi; ++s)
    {
        at(s); nontrivial(); hasher h; h.u(s); state(h); outcome(h);
        using D = ce::dictionary<300, int, int>;
        static D d; memset((void*)&d, 0, sizeof d);
        // names in an order that depends on s
        auto name = [&](int i) { return int((u64(i) * 37 + s) % 299) - 100; };
        typename D::ptr_t ps[299];
        for (int i = 0; i < 299; ++i)
        {
            step(); ps[i] = d.bind(name(i), i); MC_CHECK(ps[i] != D::ptr_t::nil, "bind %d of 299 failed", i);
            for (int k = 0; k < i; k += (i % 7 == 0 ? 1 : 17)) MC_CHECK(ps[k] != ps[i] && d.find(name(k)) == ps[k] && d[ps[k]] == k && d[name(k)] == k, "after bind %d name %d is wrong", i, k);
            MC_CHECK(d.find(name(298 - 0) + 1000) == D::ptr_t::nil, "unknown name found");
        }
        MC_CHECK(d.bind(5000, 1) == D::ptr_t::nil && d.find(5000) == D::ptr_t::nil, "bind beyond capacity");
        for (int i = 0; i < 299; ++i) MC_CHECK(d.find(name(i)) == ps[i] && d[ps[i]] == i && d.bind(name(i), i + 1) == ps[i] && d[name(i)] == i + 1, "rebind of %d", i);
    }
}
// more than 2^16 entries
MC_SWEEP(huge, 1, 1, 1)
{
    at(0); nontrivial(); constexpr int N = 66000;
    using D = ce::dictionary<N, int, unsigned>;
    static D d; memset((void*)&d, 0, sizeof d);
    auto name = [](int i) { return unsigned(i) * 2654435761u | 1; };
    static D::ptr_t ps[N];
    for (int i = 0; i < N - 1; ++i) { step(); ps[i] = d.bind(name(i), i); MC_CHECK(ps[i] != D::ptr_t::nil && d[ps[i]] == i, "bind %d of %d failed", i, N - 1); }
    MC_CHECK(d.bind(2, 1) == D::ptr_t::nil && d.find(2) == D::ptr_t::nil, "bind beyond capacity");
    for (int i = 0; i < N - 1; i += i < 65500 && i > 300 ? 97 : 1) { step(); MC_CHECK(d.find(name(i)) == ps[i] && d[ps[i]] == i && d.bind(name(i), i + 1) == ps[i] && d[name(i)] == i + 1, "rebind of %d", i); }
    std::vector<char> seen(N); for (int i = 0; i < N - 1; ++i) { MC_CHECK(unsigned(ps[i]) < unsigned(N) && !seen[unsigned(ps[i])], "two names share an entry"); seen[unsigned(ps[i])] = 1; }
}
