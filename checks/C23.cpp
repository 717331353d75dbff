//@ level: model_checking
//@ technique: stateless model checking of multi-threaded lock programs over the real lib/mutex_std.cpp (every interleaving under a controlled scheduler with modelled pthread locks and a vector clock race detector), and exhaustive enumeration of acquire / try / release histories on real threads with the real pthread locks
//@ note: Configuration model decides exclusion, visibility, wake-ups and deadlock freedom over all interleavings; configuration real replays every command history of its bounds on operating system threads, so the model of the locks is bound to what the platform does.
//@ cxx: -O1
//@ extra: tsanrt.cpp
//@ repo: mutex_std.cpp
//@ config model: -fsanitize=thread -DMODEL
//@ config real: -DREAL
//@ bounds: model: 2 threads with 2 or 3 critical sections each and 3 threads with 1 (2), every kind of section, 4 previous memory contents, rendezvous programs, two adjacent mutexes; real: all histories of 5 (6) commands of 2 threads on 2 mutexes and of 4 (5) commands of 3 threads on a shared mutex and its neighbour, with at most one blocked thread
//@ assume: mutexes are used as their header documents (not recursive, released by their owner); the platform's pthread locks are modelled as reader preferring
#include "mcsched.h"
#include "ce/mutex.h"
#include <cstring>
#include <ctime>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
using namespace mc;

struct objects { u64 g0[2]; ce::thread_mutex a, b; ce::thread_shared_mutex s, t; ce::thread_mutex c; u64 g1[2]; };
static char const* const patterns[] = { "zero", "0xff", "0xa5", "a held mutex" };
alignas(64) static objects O;

#ifdef MODEL
#define OPAQUE __attribute__((noinline, no_sanitize("thread")))
// what the harness knows about who holds what; not part of the program under test
struct truth { int definite[4], maybe[4]; int trying[4]; bool excuse[4]; };      // 0 no, 1 shared, 2 exclusive
static truth W;
static bool clash(int x, int y) { return x && y && (x == 2 || y == 2); }
OPAQUE static void enter(int t, int k) { W.maybe[t] = k; for (int i = 0; i < 4; ++i) if (i != t && clash(W.trying[i], k)) W.excuse[i] = true; }
OPAQUE static void held(int t, int k, char const* how)
{
    for (int i = 0; i < 4; ++i) if (i != t && clash(W.definite[i], k)) fail("thread %d holds the mutex %s by %s while thread %d holds it %s", t, k == 2 ? "exclusively" : "shared", how, i, W.definite[i] == 2 ? "exclusively" : "shared");
    W.definite[t] = k;
}
OPAQUE static void leaving(int t) { W.definite[t] = 0; }
OPAQUE static void left(int t) { W.maybe[t] = 0; }
OPAQUE static void try_begins(int t, int k) { W.trying[t] = k; W.excuse[t] = false; for (int i = 0; i < 4; ++i) if (i != t && clash(W.maybe[i], k)) W.excuse[t] = true; W.maybe[t] = k; }
OPAQUE static void try_ends(int t, int k, bool ok)
{
    W.trying[t] = 0;
    if (!ok) { W.maybe[t] = 0; if (!W.excuse[t]) fail("thread %d: a try for %s ownership fails although nobody conflicting holds the mutex", t, k == 2 ? "exclusive" : "shared"); }
    else
    {
        for (int i = 0; i < 4; ++i) if (i != t && clash(W.trying[i], k)) W.excuse[i] = true;
        held(t, k, "a try");
    }
}
static int data[4];
static int order[16], norder;
OPAQUE static void note(int x) { if (norder < 16) order[norder++] = x; }
template<class M> static void section(M& m, int t, int how)
{
    constexpr bool sh = sizeof(M) == sizeof(ce::thread_shared_mutex) && !__is_same(M, ce::thread_mutex);
    bool shared = false;
    if (how == 0) { enter(t, 2); acquire_mutex(m); held(t, 2, "acquire"); }
    else if (how == 1) { try_begins(t, 2); bool ok = try_acquire_mutex(m); try_ends(t, 2, ok); note(t * 8 + 4 + ok); if (!ok) return; }
    if constexpr (sh)
    {
        if (how == 2) { enter(t, 1); acquire_mutex_shared(m); held(t, 1, "a shared acquire"); shared = true; }
        else if (how == 3) { try_begins(t, 1); bool ok = try_acquire_mutex_shared(m); try_ends(t, 1, ok); note(t * 8 + 6 + ok); if (!ok) return; shared = true; }
    }
    note(t * 8 + shared);
    if (shared) { int v = data[0]; data[1 + t] = v; } else { ++data[0]; }
    leaving(t);
    if constexpr (sh) { if (shared) release_mutex_shared(m); else release_mutex(m); } else release_mutex(m);
    left(t);
}
template<class M> static void prepare(M& m, int pattern)
{
    modelled(true);
    if (pattern < 3) memset((void*)&m, pattern == 0 ? 0 : pattern == 1 ? 0xff : 0xa5, sizeof m);
    else { memset((void*)&m, 0, sizeof m); construct_mutex(m); acquire_mutex(m); }
    construct_mutex(m);
    memset(&W, 0, sizeof W); memset(data, 0, sizeof data); norder = 0;
}
template<class M> static void finished(M& m)
{
    // everything has been released: the mutex is free and can be destroyed
    MC_CHECK(try_acquire_mutex(m), "a mutex that everybody has released cannot be acquired"); release_mutex(m);
    if constexpr (!__is_same(M, ce::thread_mutex)) { MC_CHECK(try_acquire_mutex_shared(m), "a shared mutex that everybody has released cannot be acquired"); release_mutex_shared(m); }
    destroy_mutex(m);
    modelled(false);
    hasher h; for (int i = 0; i < norder; ++i) h.u(order[i]); h.u(data[0]); state(h); outcome(h); step();
}
template<class M> static void programs(M& m, int threads, int sections, int preemptions)
{
    int kinds = __is_same(M, ce::thread_mutex) ? 2 : 4, p[4][3], n = 0;
    int pattern = choose(4);
    for (int t = 0; t < threads; ++t) for (int s = 0; s < sections; ++s) { p[t][s] = choose(kinds); n = n * 4 + p[t][s]; }
    trace("previous memory: %s", patterns[pattern]);
    for (int t = 0; t < threads; ++t) for (int s = 0; s < sections; ++s) trace("thread %d: %s", t, p[t][s] == 0 ? "acquire" : p[t][s] == 1 ? "try acquire" : p[t][s] == 2 ? "acquire shared" : "try acquire shared");
    prepare(m, pattern);
    std::vector<std::function<void()>> f;
    for (int t = 0; t < threads; ++t) f.push_back([&, t] { for (int s = 0; s < sections; ++s) section(m, t, p[t][s]); });
    run_threads(f, preemptions, 0);
    note(100 + n % 100);
    finished(m);
}
MC_DFS(mutex_two) { programs(O.a, 2, 3, -1); }
MC_DFS(mutex_three) { programs(O.b, 3, thorough ? 2 : 1, -1); }
MC_DFS(shared_two) { programs(O.s, 2, 2, -1); }
MC_DFS(shared_three) { programs(O.t, 3, 1, -1); }
MC_DFS_THOROUGH(shared_three_deep) { programs(O.t, 3, 2, 3); }
MC_DFS_THOROUGH(shared_four) { programs(O.s, 4, 1, 3); }

// a thread holds the mutex until the other one's try has come back: the try may not block
template<class M> static void held_try(M& m)
{
    constexpr bool sh = !__is_same(M, ce::thread_mutex);
    int hold = choose(sh ? 4 : 2), want = choose(sh ? 2 : 1), rounds = 1 + choose(2);
    prepare(m, choose(4));
    std::atomic<int> in{ 0 }, done{ 0 };
    static bool ok; ok = false;
    run_threads({ [&] {
            if (hold == 0) acquire_mutex(m); else if (hold == 1) { if (!try_acquire_mutex(m)) fail("try of a free mutex fails"); }
            if constexpr (sh) { if (hold == 2) acquire_mutex_shared(m); else if (hold == 3) { if (!try_acquire_mutex_shared(m)) fail("try of a free shared mutex fails"); } }
            in.store(1); while (!done.load());
            if constexpr (sh) { if (hold >= 2) { release_mutex_shared(m); return; } }
            release_mutex(m); },
        [&] {
            while (!in.load());
            for (int i = 0; i < rounds; ++i)
            {
                if constexpr (sh) { if (want == 1) ok = try_acquire_mutex_shared(m); else ok = try_acquire_mutex(m); } else ok = try_acquire_mutex(m);
                bool expect = hold >= 2 && want == 1;
                if (ok != expect) fail("a try for %s ownership of a mutex held %s gives %d", want ? "shared" : "exclusive", hold >= 2 ? "shared" : "exclusively", ok);
                if constexpr (sh) if (ok) release_mutex_shared(m);
            }
            done.store(1); } }, 3, 0);
    note(hold * 8 + want);
    finished(m);
}
MC_DFS(try_of_held) { if (choose(2)) held_try(O.a); else held_try(O.s); }
// shared owners are admitted together, mutexes do not affect each other: each thread waits inside until all are inside
MC_DFS(together)
{
    int kind = choose(5), threads = 2 + choose(2);
    prepare(O.a, 0); prepare(O.b, 2); prepare(O.s, 1); prepare(O.t, 3);
    std::atomic<int> inside{ 0 };
    auto meet = [&] { inside.fetch_add(1); while (inside.load() < threads); };
    std::vector<std::function<void()>> f;
    for (int t = 0; t < threads; ++t) f.push_back([&, t] {
        switch (kind)
        {
        case 0: acquire_mutex_shared(O.s); meet(); release_mutex_shared(O.s); break;
        case 1: if (t) { if (!try_acquire_mutex_shared(O.s)) fail("a shared try fails among shared owners"); } else acquire_mutex_shared(O.s); meet(); release_mutex_shared(O.s); break;
        case 2: if (t == 0) { acquire_mutex(O.a); meet(); release_mutex(O.a); } else if (t == 1) { acquire_mutex(O.b); meet(); release_mutex(O.b); } else { acquire_mutex(O.s); meet(); release_mutex(O.s); } break;
        case 3: if (t == 0) { acquire_mutex(O.s); meet(); release_mutex(O.s); } else if (t == 1) { acquire_mutex(O.t); meet(); release_mutex(O.t); } else { acquire_mutex(O.b); meet(); release_mutex(O.b); } break;
        default: if (t == 0) { acquire_mutex(O.s); meet(); release_mutex(O.s); } else { acquire_mutex_shared(O.t); meet(); release_mutex_shared(O.t); } break;
        } });
    run_threads(f, 2, 0);
    note(kind * 4 + threads);
    finished(O.a); modelled(true); finished(O.b); modelled(true); finished(O.s); modelled(true); finished(O.t);
}
// a hand over: the second owner sees what the first wrote, also through a chain of sections of different kinds
MC_DFS(visible)
{
    int first = choose(2), second = choose(4);
    prepare(O.s, choose(4));
    static int value, got; value = 0; got = -1;
    run_threads({ [&] { if (first) { if (!try_acquire_mutex(O.s)) return; } else acquire_mutex(O.s); value = 42; release_mutex(O.s); },
        [&] {
            if (second == 0) acquire_mutex(O.s); else if (second == 1) { if (!try_acquire_mutex(O.s)) return; }
            else if (second == 2) acquire_mutex_shared(O.s); else if (!try_acquire_mutex_shared(O.s)) return;
            got = value;
            if (second < 2) { value = 43; release_mutex(O.s); } else release_mutex_shared(O.s); },
        [&] { if (choose(2)) { acquire_mutex(O.s); ++value; release_mutex(O.s); } else { acquire_mutex_shared(O.s); int v = value; (void)v; release_mutex_shared(O.s); } } }, -1, 0);
    MC_CHECK(got == -1 || got == 0 || got == 42 || got == 1 || got == 43, "a later owner reads %d", got);
    note(got + 2);
    finished(O.s);
}
#endif

#ifdef REAL
// ---- the real locks on real threads, one command at a time
enum { ACQ, TRY, ACQS, TRYS, REL, RELS };
static char const* const cname[] = { "acquire", "try_acquire", "acquire_shared", "try_acquire_shared", "release", "release_shared" };
struct worker { pthread_t id; sem_t go, done; int cmd, obj; bool result; };
static worker* W; static int owner_pid;
static void run_command(int cmd, int obj, bool& r)
{
    r = true;
    if (obj < 2)
    {
        auto& m = obj ? O.b : O.a;
        if (cmd == ACQ) acquire_mutex(m); else if (cmd == TRY) r = try_acquire_mutex(m); else release_mutex(m);
    }
    else
    {
        auto& m = obj == 2 ? O.s : O.t;
        switch (cmd) { case ACQ: acquire_mutex(m); break; case TRY: r = try_acquire_mutex(m); break; case ACQS: acquire_mutex_shared(m); break; case TRYS: r = try_acquire_mutex_shared(m); break; case REL: release_mutex(m); break; default: release_mutex_shared(m); }
    }
}
static void* work(void* p) { auto w = (worker*)p; for (;;) { while (sem_wait(&w->go)); run_command(w->cmd, w->obj, w->result); sem_post(&w->done); } return nullptr; }
static void threads()
{
    if (owner_pid == getpid()) return;
    owner_pid = getpid(); W = new worker[3];
    for (int i = 0; i < 3; ++i) { sem_init(&W[i].go, 0, 0); sem_init(&W[i].done, 0, 0); if (pthread_create(&W[i].id, nullptr, work, &W[i])) _Exit(2); }
}
static bool done_in(worker& w, long ms, long us = 0)
{
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_nsec += us * 1000; ts.tv_sec += ms / 1000 + ts.tv_nsec / 1000000000; ts.tv_nsec %= 1000000000;
    for (;;) { int r = ms ? sem_timedwait(&w.done, &ts) : us ? sem_timedwait(&w.done, &ts) : sem_trywait(&w.done); if (r == 0) return true; if (errno != EINTR) return false; }
}
static int const N_OBJ = 4;
struct truth { int own[N_OBJ][3]; int blocked, bobj, bcmd; };     // own: 0, 1 shared, 2 exclusive
static bool conflict(truth const& q, int obj, int t, int k) { for (int i = 0; i < 3; ++i) if (i != t && q.own[obj][i] && (q.own[obj][i] == 2 || k == 2)) return true; return false; }
static int kind_of(int cmd) { return cmd == ACQS || cmd == TRYS ? 1 : 2; }

static void settle(truth& q)
{
    if (q.blocked < 0) return;
    int k = kind_of(q.bcmd);
    if (conflict(q, q.bobj, q.blocked, k)) { if (done_in(W[q.blocked], 0)) fail("thread %d: %s returns while a conflicting owner holds the mutex", q.blocked, cname[q.bcmd]); return; }
    if (!done_in(W[q.blocked], 20000)) fail("thread %d: %s does not return although the conflicting owners have released", q.blocked, cname[q.bcmd]);
    trace("thread %d: the blocked %s returns", q.blocked, cname[q.bcmd]);
    q.own[q.bobj][q.blocked] = k; q.blocked = -1;
}
static void issue(truth& q, int t, int cmd, int obj)
{
    W[t].cmd = cmd; W[t].obj = obj; step();
    bool blocks = false, expect = true; int k = kind_of(cmd);
    if (cmd == ACQ || cmd == ACQS) blocks = conflict(q, obj, t, k);
    if (cmd == TRY || cmd == TRYS) expect = !conflict(q, obj, t, k);
    trace("thread %d: %s of object %d%s", t, cname[cmd], obj, blocks ? " (has to wait)" : "");
    if (cmd >= REL) q.own[obj][t] = 0;
    sem_post(&W[t].go);
    if (blocks) { if (done_in(W[t], 0, 300)) fail("thread %d: %s returns while a conflicting owner holds the mutex", t, cname[cmd]); q.blocked = t; q.bobj = obj; q.bcmd = cmd; return; }
    if (!done_in(W[t], 20000)) fail("thread %d: %s does not return although it has nothing to wait for", t, cname[cmd]);
    if (W[t].result != expect) fail("thread %d: %s gives %d, expected %d", t, cname[cmd], W[t].result, expect);
    if (cmd < REL && expect) q.own[obj][t] = k;
    settle(q);
}
static void construct(int obj) { if (obj == 0) construct_mutex(O.a); else if (obj == 1) construct_mutex(O.b); else if (obj == 2) construct_mutex(O.s); else construct_mutex(O.t); }
static void destroy(int obj) { if (obj == 0) destroy_mutex(O.a); else if (obj == 1) destroy_mutex(O.b); else if (obj == 2) destroy_mutex(O.s); else destroy_mutex(O.t); }
static void history(int const* objs, int nobj, int nthreads, int depth, bool rebuild)
{
    threads();
    int pattern = nobj == 1 || thorough ? choose(3) : 1;
    memset((void*)&O, pattern == 0 ? 0 : pattern == 1 ? 0xff : 0xa5, sizeof O);
    u64 guard = O.g0[0];
    for (int i = 0; i < nobj; ++i) construct(objs[i]);
    truth q{}; q.blocked = -1;
    for (int i = 0; i < depth; ++i)
    {
        struct { int t, cmd, obj; } e[64]; int n = 0;
        for (int t = 0; t < nthreads; ++t) if (t != q.blocked) for (int j = 0; j < nobj; ++j)
        {
            int o = objs[j];
            if (q.own[o][t]) { e[n++] = { t, q.own[o][t] == 2 ? REL : RELS, o }; continue; }
            for (int c = ACQ; c <= (o < 2 ? TRY : TRYS); ++c)
            {
                if (c == ACQ || c == ACQS) { if (q.blocked >= 0 && conflict(q, o, t, kind_of(c))) continue; }
                // who gets in while another one waits is the platform's choice
                if (q.blocked >= 0 && q.bobj == o && !conflict(q, o, t, kind_of(c))) continue;
                e[n++] = { t, c, o };
            }
        }
        if (rebuild) for (int j = 0; j < nobj; ++j) { int o = objs[j]; if (!q.own[o][0] && !q.own[o][1] && !q.own[o][2] && !(q.blocked >= 0 && q.bobj == o)) e[n++] = { -1, 0, o }; }
        int k = choose(n + 1);
        if (k == n) break;
        if (e[k].t < 0) { trace("object %d is destroyed and constructed again", e[k].obj); destroy(e[k].obj); construct(e[k].obj); step(); continue; }
        issue(q, e[k].t, e[k].cmd, e[k].obj);
    }
    hasher h; for (auto& r : q.own) for (int v : r) h.u(v); h.u(q.blocked + 1); h.u(q.bobj); h.u(q.bcmd); h.u(objs[0]); state(h); outcome(h);
    for (int r = 0; r < 2; ++r)
        for (int j = 0; j < nobj; ++j) for (int t = 0; t < nthreads; ++t) if (t != q.blocked && q.own[objs[j]][t]) issue(q, t, q.own[objs[j]][t] == 2 ? REL : RELS, objs[j]);
    MC_CHECK(q.blocked < 0, "harness: a thread is still blocked");
    for (int j = 0; j < nobj; ++j)
    {
        issue(q, 0, TRY, objs[j]); issue(q, 0, REL, objs[j]);
        if (objs[j] >= 2) { issue(q, 1, TRYS, objs[j]); issue(q, 1, RELS, objs[j]); }
        destroy(objs[j]);
    }
    for (u64 g : O.g0) MC_CHECK(g == guard, "memory before the mutexes changed");
    for (u64 g : O.g1) MC_CHECK(g == guard, "memory after the mutexes changed");
}
MC_DFS(real_mutexes) { static int const o[] = { 0, 1 }; history(o, 2, 2, thorough ? 6 : 5, true); }
MC_DFS(real_shared) { static int const o[] = { 2 }; history(o, 1, 3, thorough ? 6 : 5, false); }
MC_DFS(real_neighbours) { static int const o[] = { 2, 3, 1 }; history(o, 3, 2, thorough ? 5 : 4, true); }
#endif
