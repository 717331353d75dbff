//@ level: model_checking
//@ technique: explicit-state model checking of the real container with lifetime-tracking elements (BFS over histories)
//@ note: Every history up to the stated depth (to the fixpoint for capacities 1 and 2) over two real containers whose element type records every construction, assignment and destruction by address; three element kinds cover the ways the container copies. AddressSanitizer watches the memory.
//@ cxx: -O1 -fsanitize=address
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: capacity 66000 with every pair of 8 sizes; capacities 1..4, two containers, depth 6..8 (quick) / fixpoint or 9 (thorough)
//@ assume: state identity is raw memory of both containers plus the set of live objects
#include "mc.h"
#include "ce/ce.h"
#include <vector>
#include <cstring>
#include <new>
using namespace mc;

struct live_set
{
    void const* p[64]; int n = 0;
    u64 ctor = 0, dtor = 0;
    int find(void const* q) { for (int i = 0; i < n; ++i) if (p[i] == q) return i; return -1; }
    void born(void const* q, char const* how) { MC_CHECK(find(q) < 0, "%s on an object that is already alive", how); MC_CHECK(n < 64, "too many live objects"); p[n++] = q; ++ctor; }
    void dead(void const* q) { int i = find(q); MC_CHECK(i >= 0, "destructor called on an object that is not alive"); p[i] = p[--n]; ++dtor; }
    void need(void const* q, char const* how) { MC_CHECK(find(q) >= 0, "%s an object that is not alive", how); }
};
static live_set L;

struct both // default, copy, move, assign
{
    int v;
    both() : v(7) { L.born(this, "default construction"); }
    both(int x) : v(x) { L.born(this, "construction"); }
    both(both const& o) : v((L.need(&o, "copying from"), o.v)) { L.born(this, "copy construction"); }
    both(both&& o) : v((L.need(&o, "moving from"), o.v)) { L.born(this, "move construction"); o.v = -1; }
    both& operator=(both const& o) { L.need(this, "assigning to"); L.need(&o, "assigning from"); v = o.v; return *this; }
    both& operator=(both&& o) { L.need(this, "assigning to"); L.need(&o, "moving from"); v = o.v; if (&o != this) o.v = -1; return *this; }
    ~both() { L.dead(this); }
};
struct assign_only // default and assignment, no copy construction
{
    int v;
    assign_only() : v(7) { L.born(this, "default construction"); }
    explicit assign_only(int x) : v(x) { L.born(this, "construction"); }
    assign_only(assign_only const&) = delete;
    assign_only& operator=(assign_only const& o) { L.need(this, "assigning to"); L.need(&o, "assigning from"); v = o.v; return *this; }
    ~assign_only() { L.dead(this); }
};
struct copy_only // copy, no move, no converting surprises, destructor counts
{
    int v; int tag[3];
    copy_only() : v(7), tag{ 1, 2, 3 } { L.born(this, "default construction"); }
    copy_only(int x) : v(x), tag{ 1, 2, 3 } { L.born(this, "construction"); }
    copy_only(copy_only const& o) : v((L.need(&o, "copying from"), o.v)), tag{ 1, 2, 3 } { L.born(this, "copy construction"); }
    copy_only& operator=(copy_only const& o) { L.need(this, "assigning to"); L.need(&o, "assigning from"); v = o.v; return *this; }
    ~copy_only() { L.dead(this); tag[0] = 0; }
};

using vec_t = std::vector<int>;
template<size_t N, class T> struct world
{
    using B = ce::bulk<N, T>;
    struct mem { unsigned long long g0; alignas(16) char a[sizeof(B)]; unsigned long long g1; alignas(16) char b[sizeof(B)]; unsigned long long g2; };
    alignas(64) static inline mem m;
    static B& obj(int w) { return *reinterpret_cast<B*>(w ? m.b : m.a); }
    vec_t ref[2];
    bool exists[2] = { true, true };
    world() { L = {}; memset(&m, 0x5e, sizeof m); for (int w = 0; w < 2; ++w) new (&obj(w)) B(); }

    void check(char const* what)
    {
        size_t total = 0;
        for (int w = 0; w < 2; ++w) if (exists[w])
        {
            B& b = obj(w); vec_t& r = ref[w];
            MC_CHECK(b.size == r.size(), "%s: container %d reports %zu elements, expected %zu", what, w, size_t(b.size), r.size());
            for (size_t i = 0; i < r.size(); ++i)
            {
                MC_CHECK(L.find(&b[i]) >= 0, "%s: container %d reports element %zu which is not alive", what, w, i);
                MC_CHECK(b[i].v == r[i], "%s: container %d element %zu has value %d expected %d", what, w, i, b[i].v, r[i]);
            }
            total += r.size();
        }
        MC_CHECK(size_t(L.n) == total, "%s: %d objects are alive, the containers report %zu", what, L.n, total);
        MC_CHECK(L.ctor - L.dtor == total, "%s: %llu constructions, %llu destructions", what, L.ctor, L.dtor);
        MC_CHECK(m.g0 == 0x5e5e5e5e5e5e5e5eull && m.g1 == m.g0 && m.g2 == m.g0, "%s: memory outside", what);
    }

    static constexpr int per = 2 + int(N + 2) + int(N + 2) + 1 + 2 * int(N + 1) + 5;
    static constexpr int nops = 2 * per;
    bool op(int code)
    {
        int w = code / per, k = code % per;
        B& b = obj(w); vec_t& r = ref[w];
        char what[100]; bool ok = true, want = true;
        if (!exists[w] && k < per - 2) return false;
        if (k < 2) { int v = k + 1; snprintf(what, sizeof what, "c%d.append(%d)", w, v); trace("%s", what); want = r.size() < N; if (want) r.push_back(v); ok = b.append(v); }
        else if ((k -= 2) < int(N + 2)) { snprintf(what, sizeof what, "c%d.append_n(%d)", w, k); trace("%s", what); want = size_t(k) <= N - r.size(); if (want) r.insert(r.end(), size_t(k), 7); ok = b.append_n(size_t(k)); }
        else if ((k -= int(N + 2)) < int(N + 2)) { snprintf(what, sizeof what, "c%d.resize(%d)", w, k); trace("%s", what); want = size_t(k) <= N; if (want) r.resize(size_t(k), 7); ok = b.resize(size_t(k)); }
        else if ((k -= int(N + 2)) < 1) { snprintf(what, sizeof what, "c%d.clear()", w); trace("%s", what); r.clear(); b.clear(); }
        else if ((k -= 1) < 2 * int(N + 1))
        {
            bool ordered = k > int(N); size_t i = size_t(k) % (N + 1);
            snprintf(what, sizeof what, "c%d.remove_at<%d>(%zu)", w, ordered, i); trace("%s", what);
            want = i < r.size();
            if (want) { if (ordered) r.erase(r.begin() + long(i)); else { r[i] = r.back(); r.pop_back(); } }
            ok = ordered ? b.template remove_at<true>(i) : b.remove_at(i);
        }
        else if ((k -= 2 * int(N + 1)) == 0) { if (!exists[!w]) return false; snprintf(what, sizeof what, "c%d = c%d", w, !w); trace("%s", what); r = ref[!w]; b = static_cast<B const&>(obj(!w)); }
        else if (k == 1) { snprintf(what, sizeof what, "c%d = c%d", w, w); trace("%s", what); b = static_cast<B const&>(b); }
        else if (k == 2) { snprintf(what, sizeof what, "~c%d", w); trace("%s", what); b.~B(); memset((void*)&b, 0x5e, sizeof b); exists[w] = false; r.clear(); }
        else if (k == 3) { if (exists[w] || !exists[!w]) return false; snprintf(what, sizeof what, "c%d(c%d)", w, !w); trace("%s", what); new (&b) B(static_cast<B const&>(obj(!w))); exists[w] = true; r = ref[!w]; }
        else { if (exists[w]) return false; snprintf(what, sizeof what, "c%d()", w); trace("%s", what); new (&b) B(); exists[w] = true; }
        MC_CHECK(ok == want, "%s returned %d", what, ok);
        check(what);
        return true;
    }
    static u64 body(unsigned char const* hist, int n, bool& ok)
    {
        world w; w.check("construction");
        for (int i = 0; i < n; ++i) if (!w.op(hist[i])) { ok = false; return 0; }
        hasher h; h.b(&m, sizeof m); h.u(w.exists[0] * 2 + w.exists[1]);
        hasher o; for (auto& r : w.ref) { o.u(r.size()); for (int v : r) o.u(u64(v)); } outcome(o);
        if (n > 4 && want_sample()) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(hist[i]) + " "; sample("bulk<%zu> ops %s-> %llu constructions %llu destructions", N, s.c_str(), L.ctor, L.dtor); }
        u64 c = h;
        for (int i = 0; i < 2; ++i) if (w.exists[i]) { obj(i).~B(); w.exists[i] = false; w.ref[i].clear(); }
        w.check("final destruction");
        return c;
    }
};
#define W(NAME, N, T, DQ, DT) MC_BFS(NAME, (world<N, T>::nops), DQ, DT) { return world<N, T>::body(hist, n, ok); }
W(both1, 1, both, 40, 40)
W(both2, 2, both, 40, 40)
W(both3, 3, both, 40, 40)
W(both4, 4, both, 6, 8)
W(assign1, 1, assign_only, 40, 40)
W(assign2, 2, assign_only, 40, 40)
W(assign3, 3, assign_only, 40, 40)
W(copy2, 2, copy_only, 40, 40)
W(copy3, 3, copy_only, 40, 40)
// more than 2^16 elements: every address is constructed and destroyed exactly once whatever the sizes
namespace many
{
    constexpr size_t N = 66000;
    static unsigned char alive[2][N]; static char* base[2]; static size_t count;
    struct item
    {
        int v;
        static unsigned char& flag(void const* p) { for (int k = 0; k < 2; ++k) { size_t o = size_t((char const*)p - base[k]); if (base[k] && o < N * sizeof(item)) { MC_CHECK(o % sizeof(item) == 0, "an element at a crooked address"); return alive[k][o / sizeof(item)]; } } static unsigned char other; other = 2; return other; }
        void up() { auto& f = flag(this); if (f == 2) return; MC_CHECK(f == 0, "construction on an object that is already alive"); f = 1; ++count; }
        item() : v(7) { up(); }
        item(int x) : v(x) { up(); }
        item(item const& o) : v(o.v) { MC_CHECK(flag(&o) != 0, "copying from an object that is not alive"); up(); }
        item& operator=(item const& o) { MC_CHECK(flag(this) != 0 && flag(&o) != 0, "assigning from or to an object that is not alive"); v = o.v; return *this; }
        ~item() { auto& f = flag(this); if (f == 2) return; MC_CHECK(f == 1, "destructor called on an object that is not alive"); f = 0; --count; }
    };
    using B = ce::bulk<N, item>;
    static B& make(int k) { static char* mem[2]; if (!mem[k]) mem[k] = (char*)aligned_alloc(64, (sizeof(B) + 63) / 64 * 64); auto* b = (B*)mem[k]; base[k] = nullptr; new (b) B(); base[k] = (char*)&b->data[0]; memset(alive[k], 0, N); return *b; }
    static void check(B& a, size_t na, B& b, size_t nb, char const* what)
    {
        MC_CHECK(a.size == na && b.size == nb && count == na + nb, "after %s: sizes %zu, %zu expected %zu, %zu, alive %zu", what, size_t(a.size), size_t(b.size), na, nb, count);
        for (size_t i = 0; i < N; ++i) MC_CHECK(alive[0][i] == (i < na) && alive[1][i] == (i < nb), "after %s: element %zu is %d, %d with sizes %zu, %zu", what, i, alive[0][i], alive[1][i], na, nb);
    }
}
MC_SWEEP(many_elements, 8 * 8, 8 * 8, 1)
{
    using namespace many;
    static size_t const cut[] = { 0, 1, 255, 257, 65535, 65536, 65537, 66000 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); size_t x = cut[i / 8], y = cut[i % 8]; count = 0; step(12);
        B& a = make(0); B& b = make(1);
        MC_CHECK(a.append_n(x), "append_n"); check(a, x, b, 0, "append_n");
        MC_CHECK(b.resize(y), "resize"); check(a, x, b, y, "resize");
        MC_CHECK(a.resize(y), "resize"); check(a, y, b, y, "resize"); MC_CHECK(a.resize(x), "resize"); check(a, x, b, y, "resize");
        b = a; check(a, x, b, x, "assignment"); MC_CHECK(b.resize(y), "resize"); a = b; check(a, y, b, y, "assignment");
        if (y) { MC_CHECK(a.remove_at<true>(y / 2), "ordered remove_at"); check(a, y - 1, b, y, "ordered remove_at"); MC_CHECK(b.remove_at(0), "remove_at"); check(a, y - 1, b, y - 1, "remove_at"); MC_CHECK(a.append(3), "append"); check(a, y, b, y - 1, "append"); }
        size_t z = b.size; b.~B(); base[1] = nullptr; count -= 0; MC_CHECK(count == a.size, "destruction of %zu elements leaves %zu alive of another container with %zu", z, count, size_t(a.size));
        { char* m = (char*)&b; base[1] = nullptr; auto* c = (B*)m; base[1] = (char*)&c->data[0]; memset(alive[1], 0, N); new (c) B(a); check(a, a.size, *c, a.size, "copy construction"); c->clear(); check(a, a.size, *c, 0, "clear"); c->~B(); }
        a.~B(); MC_CHECK(count == 0, "destruction leaves %zu alive", count);
        nontrivial();
    }
}
