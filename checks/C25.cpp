//@ level: model_checking
//@ technique: stateless model checking of litmus programs over the real atomic templates: every combination of publishing and receiving operation, every interleaving, every read the C++ memory model allows, with a vector clock race detector on the plain data
//@ note: Complete for message passing, transitive publication, release sequences, store buffering, two-location publication and independent reads of independent writes over all operation kinds; memory model is an operational view machine (no load buffering).
//@ cxx: -O1 -fsanitize=thread
//@ extra: tsanrt.cpp
//@ bounds: 2 to 4 threads with up to 2 atomic operations each; publishing by store, exchange, compare-exchange, fetch add, sub, xor, and, or; receiving by load, those, or a failed compare-exchange; int, unsigned char, long long, pointer, float, double; one spurious weak failure
//@ assume: the sanitizer instrumentation delivers every atomic operation with its memory order; order is judged by the C++ memory model, not by the host processor
#include "mcsched.h"
#include "ce/atomic.h"
#include <cstring>
#include <type_traits>
using namespace mc;

static int arena[64];
// values: init, and for each publishing operation a result different from init
template<class V> struct vals
{
    static V init() { return V(6); } static V other() { return V(33); } static V absent() { return V(77); } static V fresh() { return V(9); }
    static V three() { return V(3); }
};
template<> struct vals<int*>
{
    static int* init() { return arena + 6; } static int* other() { return arena + 33; } static int* absent() { return arena + 60; } static int* fresh() { return arena + 9; }
    static long three() { return 3; }
};
template<class V> constexpr int npub = std::is_integral_v<V> ? 8 : 5;
template<class V> constexpr int nrec = std::is_integral_v<V> ? 9 : 6;
static char const* const pname[] = { "store", "exchange", "compare-exchange", "fetch_add", "fetch_sub", "fetch_xor", "fetch_or", "fetch_and" };
static char const* const rname[] = { "load", "exchange", "failed compare-exchange", "successful compare-exchange", "fetch_add", "fetch_sub", "fetch_xor", "fetch_or", "fetch_and" };

template<class V> static void publish(ce::atomic<V>& a, int k)
{
    using X = vals<V>;
    switch (k)
    {
    case 0: ce::atomic_store(a, X::fresh()); return;
    case 1: ce::atomic_exchange(a, X::fresh()); return;
    case 2: { V e = X::init(); ce::atomic_compare_exchange(a, e, X::fresh()); return; }
    case 3: ce::atomic_fetch_add(a, X::three()); return;
    case 4: ce::atomic_fetch_sub(a, X::three()); return;
    default: if constexpr (std::is_integral_v<V>) { if (k == 5) ce::atomic_fetch_xor(a, V(15)); else if (k == 6) ce::atomic_fetch_or(a, V(9)); else ce::atomic_fetch_and(a, V(2)); }
    }
}
template<class V> static V result_of(int k) { using X = vals<V>; if constexpr (std::is_integral_v<V>) { if (k == 5) return V(9); if (k == 6) return V(15); if (k == 7) return V(2); } if (k == 3) return X::init() + X::three(); if (k == 4) return X::init() - X::three(); return X::fresh(); }
// receive: did the operation see anything else than the initial value?
template<class V> static bool receive(ce::atomic<V>& a, int k, V expected)
{
    using X = vals<V>; V r = X::init();
    switch (k)
    {
    case 0: r = ce::atomic_load(a); break;
    case 1: r = ce::atomic_exchange(a, X::other()); break;
    case 2: { V e = X::absent(); ce::atomic_compare_exchange(a, e, X::other()); r = e; break; }
    case 3: { V e = expected; return ce::atomic_compare_exchange(a, e, X::other()); }
    case 4: r = ce::atomic_fetch_add(a, X::three()); break;
    case 5: r = ce::atomic_fetch_sub(a, X::three()); break;
    default: if constexpr (std::is_integral_v<V>) r = k == 6 ? ce::atomic_fetch_xor(a, V(1)) : k == 7 ? ce::atomic_fetch_or(a, V(64)) : ce::atomic_fetch_and(a, V(127));
    }
    return r != X::init();
}
// plain data next to no atomic
static int data[16];
static bool got[8];
static void finish(int what, std::initializer_list<int> ks) { step(); hasher h; h.u(what); for (int k : ks) h.u(k); for (bool b : got) h.u(b); state(h); outcome(h); }

template<class V> static void message()
{
    int w = choose(npub<V>), r = choose(nrec<V>);
    ce::atomic<V> a{ vals<V>::init() }; data[0] = 0; memset(got, 0, sizeof got); static int seen; seen = -1;
    trace("publish by %s, receive by %s", pname[w], rname[r]);
    run_threads({ [&] { data[0] = 42; publish(a, w); }, [&] { if (receive(a, r, result_of<V>(w))) { got[0] = true; seen = data[0]; } } }, -1, 1);
    MC_CHECK(!got[0] || seen == 42, "data published by %s and received by %s is not visible", pname[w], rname[r]);
    finish(0, { w, r, int(sizeof(V)) });
}
MC_DFS(message_passing)
{
    switch (choose(6)) { case 0: message<int>(); break; case 1: message<unsigned char>(); break; case 2: message<long long>(); break; case 3: message<int*>(); break; case 4: message<float>(); break; default: message<double>(); }
}
// three threads: the middle one passes the message on through another atomic
template<class V> static void chain()
{
    int w = choose(npub<V>), r = choose(nrec<V>), w2 = choose(npub<V>), r2 = choose(nrec<V>);
    ce::atomic<V> a{ vals<V>::init() }, b{ vals<V>::init() }; data[0] = 0; memset(got, 0, sizeof got); static int seen; seen = -1;
    run_threads({ [&] { data[0] = 42; publish(a, w); },
        [&] { if (receive(a, r, result_of<V>(w))) { got[0] = true; publish(b, w2); } },
        [&] { if (receive(b, r2, result_of<V>(w2))) { got[1] = true; seen = data[0]; } } }, thorough ? -1 : 2, 1);
    MC_CHECK(!got[1] || seen == 42, "data passed on through a second atomic (%s, %s, %s, %s) is not visible", pname[w], rname[r], pname[w2], rname[r2]);
    finish(1, { w, r, w2, r2, int(sizeof(V)) });
}
MC_DFS(transitive) { if (choose(2)) chain<int>(); else chain<float>(); }
// the third thread only uses the data when it must have seen the first one's value or one made from it
MC_DFS(release_sequence)
{
    using V = int; int w = choose(npub<V>), m = choose(6), r = choose(3);
    // values: w makes bit 8 set and never cleared by the middle thread's read-modify-write
    ce::atomic<V> a{ 0 }; data[0] = 0; memset(got, 0, sizeof got); static int seen; seen = -1;
    run_threads({ [&] {
            data[0] = 42; V e = 0;
            switch (w) { case 0: ce::atomic_fetch_or(a, 256); break; case 1: ce::atomic_fetch_add(a, 256); break; case 2: ce::atomic_fetch_xor(a, 256); break; case 3: ce::atomic_fetch_sub(a, -256); break;
            case 4: while (!ce::atomic_compare_exchange(a, e, e | 256)); break; default: ce::atomic_fetch_or(a, 256 + w); } },
        [&] {
            V e = 0;
            switch (m) { case 0: ce::atomic_fetch_add(a, 1); break; case 1: ce::atomic_fetch_sub(a, -1); break; case 2: ce::atomic_fetch_xor(a, 1); break; case 3: ce::atomic_fetch_or(a, 1); break; case 4: ce::atomic_fetch_and(a, ~0x1000); break;
            default: while (!ce::atomic_compare_exchange(a, e, e | 1)); } },
        [&] { V e = -1; V v = r == 0 ? ce::atomic_load(a) : r == 1 ? ce::atomic_fetch_or(a, 0) : (ce::atomic_compare_exchange(a, e, 5), e); if (v & 256) { got[0] = true; got[1] = v & 1; seen = data[0]; } } }, -1, 1);
    MC_CHECK(!got[0] || seen == 42, "a message seen through another thread's read-modify-write is not visible");
    finish(2, { w, m, r });
}
// store buffering: of two threads that each write one and then read the other at least one sees the write
template<class V> static void buffering()
{
    int w = choose(npub<V>), r = choose(nrec<V>), w2 = choose(npub<V>), r2 = choose(nrec<V>);
    ce::atomic<V> a{ vals<V>::init() }, b{ vals<V>::init() }; memset(got, 0, sizeof got);
    run_threads({ [&] { publish(a, w); got[0] = receive(b, r, result_of<V>(w2)); }, [&] { publish(b, w2); got[1] = receive(a, r2, result_of<V>(w)); } }, -1, 1);
    MC_CHECK(got[0] || got[1], "two threads that %s / %s one atomic and then %s / %s the other miss each other", pname[w], pname[w2], rname[r], rname[r2]);
    finish(3, { w, r, w2, r2, int(sizeof(V)) });
}
MC_DFS(store_buffering) { switch (choose(3)) { case 0: buffering<int>(); break; case 1: buffering<float>(); break; default: buffering<unsigned char>(); } }
// two locations: whoever sees the second write sees the first
MC_DFS(two_locations)
{
    using V = int; int w = choose(npub<V>), w2 = choose(npub<V>), r = choose(nrec<V>), r2 = choose(nrec<V>);
    ce::atomic<V> a{ 6 }, b{ 6 }; memset(got, 0, sizeof got);
    run_threads({ [&] { publish(a, w); publish(b, w2); }, [&] { got[0] = receive(b, r, result_of<V>(w2)); got[1] = receive(a, r2, result_of<V>(w)); } });
    MC_CHECK(!got[0] || got[1], "the second write (%s) is seen (%s) but not the first (%s, %s)", pname[w2], rname[r], pname[w], rname[r2]);
    finish(4, { w, w2, r, r2 });
}
// two readers agree on the order of two independent writes
MC_DFS(independent_writes)
{
    using V = int; int w = choose(npub<V>), w2 = choose(npub<V>);
    int r = choose(thorough ? 5 : 3), r2 = choose(3), r3 = choose(3), r4 = choose(3);     // load, exchange, failed compare-exchange, ...
    static int const kinds[] = { 0, 2, 4, 3, 7 };
    r = kinds[r], r2 = kinds[r2], r3 = kinds[r3], r4 = kinds[r4];
    ce::atomic<V> a{ 6 }, b{ 6 }; memset(got, 0, sizeof got);
    run_threads({ [&] { publish(a, w); }, [&] { publish(b, w2); },
        [&] { got[0] = receive(a, r, result_of<V>(w)); got[1] = receive(b, r2, result_of<V>(w2)); },
        [&] { got[2] = receive(b, r3, result_of<V>(w2)); got[3] = receive(a, r4, result_of<V>(w)); } }, thorough ? -1 : 2);
    // a reader that itself writes the atomic is seen by the other one: only judge pure readers and what they prove
    bool pure = (r == 0 || r == 2) && (r2 == 0 || r2 == 2) && (r3 == 0 || r3 == 2) && (r4 == 0 || r4 == 2);
    if (pure) MC_CHECK(!(got[0] && !got[1] && got[2] && !got[3]), "two readers disagree on the order of two writes (%s, %s)", pname[w], pname[w2]);
    finish(5, { w, w2, r, r2, r3, r4 });
}
// a lock made of exchange and store keeps plain data of two threads apart
MC_DFS(spin_lock)
{
    int kind = choose(4), rel = choose(4), n = thorough ? 2 : 1;
    ce::atomic<int> l{ 0 }; data[0] = 0;
    auto body = [&] {
        for (int i = 0; i < n; ++i)
        {
            for (;;) { if (kind == 0 ? ce::atomic_exchange(l, 1) == 0 : kind == 1 ? ce::atomic_fetch_or(l, 1) == 0 : kind == 2 ? ce::atomic_fetch_xor(l, 0) == 0 && ce::atomic_exchange(l, 1) == 0 : [&] { int e = 0; return ce::atomic_compare_exchange(l, e, 1); }()) break; }
            data[0] = data[0] + 1;
            if (rel == 0) ce::atomic_store(l, 0); else if (rel == 1) ce::atomic_exchange(l, 0); else if (rel == 2) ce::atomic_fetch_sub(l, 1); else ce::atomic_fetch_and(l, 0);
        }
    };
    if (choose(2)) run_threads({ body, body }, 3); else run_threads({ body, body, body }, 2);
    MC_CHECK(data[0] == 2 * n || data[0] == 3 * n, "updates under a spin lock were lost");
    memset(got, 0, sizeof got); finish(6, { kind, rel, data[0] });
}
