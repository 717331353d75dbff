// tsanrt.cpp - see mcsched.h.  Compiled without instrumentation.
#include "mcsched.h"
#include <atomic>
#include <cstring>
#include <cstdlib>
#include <unordered_map>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>

using mc::u64;
using u8 = unsigned char;
using uptr = unsigned long;
using a8 = unsigned char; using a16 = unsigned short; using a32 = unsigned; using a64 = unsigned long; using a128 = unsigned __int128;
static constexpr int T = 6, L = 48;
static constexpr size_t STACK = 256 << 10;

struct vclock { unsigned c[T] = {}; void join(vclock const& o) { for (int i = 0; i < T; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct view { unsigned short t[L] = {}; void join(view const& o) { for (int i = 0; i < L; ++i) if (o.t[i] > t[i]) t[i] = o.t[i]; } };
typedef unsigned __int128 val;
struct msg { val v; view w; vclock c; };
struct location { uptr addr; int size; std::vector<msg> m; };
struct fiber
{
    char* stack = nullptr; void* sp = nullptr; std::function<void()> fn;
    bool done = false; std::function<bool()> wait; char const* what = nullptr;
    vclock c; view w; vclock acq_c, rel_c; view acq_w, rel_w;
    uptr spin_addr = 0; val spin_val = 0; int spin = 0; u64 spin_stores = 0;
    bool soft = false; u64 free_at = ~u64(0);      // waits in a spin loop only; told to go on at this count of stores
    int last_errno = 0;
};
struct shadow { int wt = -1; unsigned wc = 0; unsigned r[T] = {}; unsigned aw[T] = {}; unsigned ar[T] = {}; };

struct waiter { pthread_cond_t* c; int t; bool woken; };
static std::vector<waiter*> waiters;
static fiber fibers[T]; static int nfibers; static int cur = -1; static void* main_sp; static bool model_main;
static int budget, spurious_left; static u64 clock_, points, stores;
static std::vector<location> locs; static view scview; static unsigned short scmax[L]; static std::unordered_map<uptr, shadow> shadows; static std::unordered_map<uptr, vclock> lock_clock;

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

static bool enabled(int i) { return !fibers[i].done && (!fibers[i].wait || fibers[i].wait()); }

static void go(int to)
{
    int from = cur; cur = to;
    fibers[from].last_errno = errno;
    mc_switch(&fibers[from].sp, fibers[to].sp);
    errno = fibers[from].last_errno;
}
[[noreturn]] static void stuck()
{
    char b[400]; int n = 0;
    for (int i = 0; i < nfibers; ++i) if (!fibers[i].done) n += snprintf(b + n, sizeof b - n, " thread %d waits in %s;", i, fibers[i].what ? fibers[i].what : "?");
    mc::fail("no thread can make progress:%s", b);
}
// choose who runs next; the running thread keeps running for free
static int next_thread(bool self_ok)
{
    int opt[T], n = 0;
    if (self_ok) opt[n++] = cur;
    if (!self_ok || budget != 0) for (int i = 0; i < nfibers; ++i) if (i != cur && enabled(i)) opt[n++] = i;
    if (n == 0)
    {
        // only spinning threads are left: their loops may be bounded, let one go on (an endless one meets the limit of operations)
        for (int i = 0; i < nfibers; ++i) if (!fibers[i].done && fibers[i].wait && fibers[i].soft) opt[n++] = i;
        if (n == 0) return -1;
        int i = opt[mc::choose(n)];
        fibers[i].free_at = stores;
        return i;
    }
    int k = mc::choose(n);
    if (self_ok && k > 0 && budget > 0) --budget;
    return opt[k];
}
static void point()
{
    if (cur < 0) return;
    ++points; ++clock_; mc::step();
    if (points > 20000) mc::fail("the threads do not finish within 20000 operations");
    int t = next_thread(true);
    if (t != cur) go(t);
}
static void block(char const* what, std::function<bool()> until)
{
    if (cur < 0) { if (!until()) mc::fail("the only thread blocks in %s", what); return; }
    point();
    while (!until())
    {
        fibers[cur].wait = until; fibers[cur].what = what;
        int t = next_thread(false);
        if (t < 0) stuck();
        go(t);
        fibers[cur].wait = nullptr;
    }
}
static void entry()
{
    fibers[cur].fn();
    fibers[cur].done = true; ++clock_;
    int t = next_thread(false);
    if (t >= 0) { cur = t; void* dead; mc_switch(&dead, fibers[t].sp); }
    for (int i = 0; i < nfibers; ++i) if (!fibers[i].done) stuck();
    cur = -1;
    void* dead; mc_switch(&dead, main_sp);
    __builtin_unreachable();
}
namespace mc
{
    int self() { return cur; }
    u64 stamp() { return ++clock_; }
    void modelled(bool on) { model_main = on; if (on) lock_clock.clear(); }
    u64 sched_points() { return points; }
    bool blocked_in(int i) { return !fibers[i].done && fibers[i].wait != nullptr; }
    void run_threads(std::vector<std::function<void()>> const& ths, int preemptions, int spurious)
    {
        nfibers = int(ths.size()); if (nfibers > T) { fprintf(stderr, "sched: too many threads\n"); _Exit(2); }
        budget = preemptions; spurious_left = spurious; clock_ = points = stores = 0;
        locs.clear(); scview = view{}; memset(scmax, 0, sizeof scmax); shadows.clear(); lock_clock.clear(); waiters.clear();
        for (int i = 0; i < nfibers; ++i)
        {
            fiber& f = fibers[i]; char* s = f.stack ? f.stack : (char*)malloc(STACK);
            f = fiber{}; f.stack = s; f.fn = ths[size_t(i)]; f.c.c[i] = 1;
            void** sp = (void**)(((uptr)s + STACK) & ~uptr(15));
            *--sp = nullptr; *--sp = (void*)entry;                       // rsp % 16 == 8 at entry
            for (int k = 0; k < 6; ++k) *--sp = nullptr;
            f.sp = sp;
        }
        cur = 0;
        int first = mc::choose(nfibers); cur = first;
        mc_switch(&main_sp, fibers[first].sp);
        cur = -1;
    }
}

// ---- plain accesses
static inline bool seen(int t, unsigned c) { return c == 0 || c <= fibers[cur].c.c[t]; }
static void plain(void* p, size_t n, bool write)
{
    if (cur < 0 || n == 0) return;
    uptr a = (uptr)p;
    if (a >= (uptr)fibers[cur].stack && a < (uptr)fibers[cur].stack + STACK) return;
    for (size_t i = 0; i < n; ++i)
    {
        shadow& s = shadows[a + i];
        if (s.wt >= 0 && s.wt != cur && !seen(s.wt, s.wc)) mc::fail("data race: thread %d %s a byte that thread %d writes without ordering", cur, write ? "writes" : "reads", s.wt);
        for (int t = 0; t < nfibers; ++t) if (t != cur)
        {
            if (write && !seen(t, s.r[t])) mc::fail("data race: thread %d writes a byte that thread %d reads without ordering", cur, t);
            if (!seen(t, s.aw[t])) mc::fail("data race: thread %d %s a byte plainly that thread %d writes atomically without ordering", cur, write ? "writes" : "reads", t);
            if (write && !seen(t, s.ar[t])) mc::fail("data race: thread %d writes a byte plainly that thread %d reads atomically without ordering", cur, t);
        }
        if (write) s.wt = cur, s.wc = fibers[cur].c.c[cur]; else s.r[cur] = fibers[cur].c.c[cur];
    }
    if (write) for (size_t i = 0; i < locs.size(); ++i) if (locs[i].addr < a + n && a < locs[i].addr + uptr(locs[i].size)) locs[i].addr = 0;   // re-initialised
}
static void atomic_access(void* p, int n, bool write)
{
    uptr a = (uptr)p;
    for (int i = 0; i < n; ++i)
    {
        shadow& s = shadows[a + uptr(i)];
        if (s.wt >= 0 && s.wt != cur && !seen(s.wt, s.wc)) mc::fail("data race: thread %d uses an atomic that thread %d writes plainly without ordering", cur, s.wt);
        if (write) for (int t = 0; t < nfibers; ++t) if (t != cur && !seen(t, s.r[t])) mc::fail("data race: thread %d writes an atomic that thread %d reads plainly without ordering", cur, t);
        (write ? s.aw : s.ar)[cur] = fibers[cur].c.c[cur];
    }
}
static val rd(void const* p, int n) { val v = 0; memcpy(&v, p, size_t(n)); return v; }
static void wr(void* p, int n, val v) { memcpy(p, &v, size_t(n)); }
static int find(void* p, int n)
{
    for (size_t i = 0; i < locs.size(); ++i) if (locs[i].addr == (uptr)p && locs[i].size == n) return int(i);
    for (auto& l : locs) if (l.addr && l.addr < (uptr)p + uptr(n) && (uptr)p < l.addr + uptr(l.size)) mc::fail("overlapping atomic accesses of different size");
    if (locs.size() >= L) { fprintf(stderr, "sched: too many atomic locations\n"); _Exit(2); }
    location l; l.addr = (uptr)p; l.size = n; msg m{}; m.v = rd(p, n); l.m.push_back(m); locs.push_back(l);
    return int(locs.size()) - 1;
}
enum { RLX, CON, ACQ, REL, AR, SC };
static bool acq(int o) { return o == CON || o == ACQ || o == AR || o == SC; }
static bool rel(int o) { return o == REL || o == AR || o == SC; }

// a thread that keeps reading the same value without anybody storing waits for the next store
static void spin_check(void* p, val v)
{
    fiber& f = fibers[cur];
    if (f.spin_addr != (uptr)p || f.spin_val != v || f.spin_stores != stores) { f.spin_addr = (uptr)p; f.spin_val = v; f.spin_stores = stores; f.spin = 0; return; }
    if (++f.spin < 4 || f.free_at == stores) return;
    u64 s = stores; f.spin = 0;
    f.wait = [s] { return stores != s; }; f.what = "a spin loop"; f.soft = true;
    int t = next_thread(false);
    if (t != cur) go(t);
    fibers[cur].wait = nullptr; fibers[cur].soft = false;
}
static void got(fiber& f, int l, size_t k, int o)
{
    auto& m = locs[size_t(l)].m[k];
    if (f.w.t[l] < k) f.w.t[l] = (unsigned short)k;
    if (acq(o)) f.w.join(m.w), f.c.join(m.c); else f.acq_w.join(m.w), f.acq_c.join(m.c);
}
static void put(fiber& f, int l, val v, int o, msg const* rmw)
{
    auto& loc = locs[size_t(l)];
    msg m{}; m.v = v;
    f.w.t[l] = (unsigned short)loc.m.size();
    if (rel(o)) m.w = f.w, m.c = f.c; else m.w = f.rel_w, m.c = f.rel_c;
    m.w.t[l] = f.w.t[l];
    if (rmw) m.w.join(rmw->w), m.c.join(rmw->c);
    bool changed = loc.m.back().v != v;
    loc.m.push_back(m);
    if (o == SC) scmax[l] = f.w.t[l];
    wr((void*)loc.addr, loc.size, v);
    if (rel(o)) ++f.c.c[cur];
    if (changed) ++stores, f.spin = 0, f.spin_addr = 0;     // writing what was there is no progress
}
static val a_load(void* p, int n, int o)
{
    if (cur < 0) return rd(p, n);
    point();
    atomic_access(p, n, false);
    fiber& f = fibers[cur]; int l = find(p, n);
    size_t last = locs[size_t(l)].m.size() - 1, low = f.w.t[l];
    if (o == SC && scmax[l] > low) low = scmax[l];
    size_t k = last;
    if (f.spin < 2) k = last - size_t(mc::choose(int(last - low + 1)));
    got(f, l, k, o);
    val v = locs[size_t(l)].m[k].v;
    spin_check(p, v);
    return v;
}
static void a_store(void* p, int n, val v, int o)
{
    if (cur < 0) { wr(p, n, v); return; }
    point();
    atomic_access(p, n, true);
    fiber& f = fibers[cur]; int l = find(p, n);
    put(f, l, v, o, nullptr);
}
template<class F> static val a_rmw(void* p, int n, int o, F op)
{
    if (cur < 0) { val old = rd(p, n); wr(p, n, op(old)); return old; }
    point();
    atomic_access(p, n, false); atomic_access(p, n, true);
    fiber& f = fibers[cur]; int l = find(p, n);
    size_t k = locs[size_t(l)].m.size() - 1;
    got(f, l, k, o);
    msg old = locs[size_t(l)].m[k];
    put(f, l, op(old.v), o, &old);
    spin_check(p, old.v);
    return old.v;
}
static bool a_cas(void* p, int n, void* expected, val v, int o, int fo, bool weak)
{
    val e = rd(expected, n);
    if (cur < 0) { val old = rd(p, n); if (old == e) { wr(p, n, v); return true; } wr(expected, n, old); return false; }
    point();
    atomic_access(p, n, false);
    fiber& f = fibers[cur]; int l = find(p, n);
    size_t last = locs[size_t(l)].m.size() - 1, low = f.w.t[l];
    if (fo == SC && scmax[l] > low) low = scmax[l];
    // candidates: the latest message, or an older one that differs from the expected value
    size_t cand[64]; int nc = 0; cand[nc++] = last;
    if (f.spin < 2) for (size_t k = last; k-- > low && nc < 64;) if (locs[size_t(l)].m[k].v != e) cand[nc++] = k;
    size_t k = cand[mc::choose(nc)];
    bool ok = locs[size_t(l)].m[k].v == e && k == last;
    if (ok && weak && spurious_left > 0 && mc::choose(2)) --spurious_left, ok = false;
    if (ok)
    {
        atomic_access(p, n, true);
        got(f, l, k, o);
        msg old = locs[size_t(l)].m[k];
        put(f, l, v, o, &old);
        return true;
    }
    got(f, l, k, fo);
    val seenv = locs[size_t(l)].m[k].v;
    wr(expected, n, seenv);
    spin_check(p, seenv);
    return false;
}
namespace mc { bool cas(void* p, int n, void* expected, void const* desired, bool weak, int o, int fo) { return a_cas(p, n, expected, rd(desired, n), o, fo, weak); } }
static void a_fence(int o)
{
    if (cur < 0) return;
    point();
    fiber& f = fibers[cur];
    if (acq(o)) f.w.join(f.acq_w), f.c.join(f.acq_c);
    if (o == SC) f.w.join(scview), scview.join(f.w);
    if (rel(o)) f.rel_w = f.w, f.rel_c = f.c, ++f.c.c[cur];
}

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void* p) { plain(p, N, false); } void __tsan_write##N(void* p) { plain(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, false); } void __tsan_unaligned_write##N(void* p) { plain(p, N, true); } \
    void __tsan_read_write##N(void* p) { plain(p, N, false); plain(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { plain(p, N, false); plain(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { plain(p, N, false); } void __tsan_volatile_write##N(void* p) { plain(p, N, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, uptr n) { plain(p, n, false); }
    void __tsan_write_range(void* p, uptr n) { plain(p, n, true); }
    void __tsan_vptr_read(void** p) { plain(p, 8, false); }
    void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
    void* __tsan_memcpy(void* d, void const* s, uptr n) { plain((void*)s, n, false); plain(d, n, true); return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, void const* s, uptr n) { plain((void*)s, n, false); plain(d, n, true); return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, uptr n) { plain(d, n, true); return memset(d, c, n); }

// 8 and 16 bit arguments arrive without being extended: taken as whole registers and cut down
#define AT(B, TY, ARG) \
    TY __tsan_atomic##B##_load(const volatile TY* a, int o) { return TY(a_load((void*)a, B / 8, o)); } \
    void __tsan_atomic##B##_store(volatile TY* a, ARG w, int o) { a_store((void*)a, B / 8, TY(w), o); } \
    TY __tsan_atomic##B##_exchange(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val) { return val(v); })); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(TY(x) + v)); })); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(TY(x) - v)); })); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(TY(x) & v)); })); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(TY(x) | v)); })); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(TY(x) ^ v)); })); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* a, ARG w, int o) { TY v = TY(w); return TY(a_rmw((void*)a, B / 8, o, [=](val x) { return val(TY(~(TY(x) & v))); })); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, ARG w, int o, int fo) { return a_cas((void*)a, B / 8, e, TY(w), o, fo, false); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, ARG w, int o, int fo) { return a_cas((void*)a, B / 8, e, TY(w), o, fo, true); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, ARG e, ARG w, int o, int fo) { TY x = TY(e); a_cas((void*)a, B / 8, &x, TY(w), o, fo, false); return x; }
    AT(8, a8, unsigned) AT(16, a16, unsigned) AT(32, a32, unsigned) AT(64, a64, unsigned long) AT(128, a128, unsigned __int128)
    void __tsan_atomic_thread_fence(int o) { a_fence(o); }
    void __tsan_atomic_signal_fence(int) {}
}

// ---- locks: the model keeps its state in the lock's own memory (all zero = freshly initialised and free), so that
//      construction on any memory is part of what is explored
static bool modelled_now() { return cur >= 0 || model_main; }
template<class F> static F real(char const* name, F) { static_assert(sizeof(F) == sizeof(void*)); void* p = dlsym(RTLD_NEXT, name); F f; memcpy(&f, &p, sizeof f); return f; }
#define REAL(NAME, ...) do { static auto f = real(#NAME, &NAME); return f(__VA_ARGS__); } while (0)

struct mstate { int owner1; int zero[9]; };              // pthread_mutex_t, 40 bytes
struct rstate { int writer1; int readers[T + 1]; int zero[6]; };   // pthread_rwlock_t, 56 bytes
static_assert(sizeof(mstate) == sizeof(pthread_mutex_t) && sizeof(rstate) == sizeof(pthread_rwlock_t));
static int me() { return cur < 0 ? T - 1 : cur; }
static mstate* M(pthread_mutex_t* m)
{
    auto s = (mstate*)m; bool ok = s->owner1 >= 0 && s->owner1 <= T;
    for (int z : s->zero) ok &= z == 0;
    if (!ok) mc::fail("a mutex is used that was not initialised (or its memory was overwritten)");
    return s;
}
static rstate* R(pthread_rwlock_t* r)
{
    auto s = (rstate*)r; bool ok = s->writer1 >= 0 && s->writer1 <= T;
    for (int z : s->readers) ok &= z >= 0 && z < 100;
    for (int z : s->zero) ok &= z == 0;
    if (!ok) mc::fail("a shared mutex is used that was not initialised (or its memory was overwritten)");
    return s;
}
static int readers(rstate* s) { int n = 0; for (int r : s->readers) n += r; return n; }
static void acquired(void* l) { if (cur >= 0) fibers[cur].c.join(lock_clock[(uptr)l]), ++stores; }
static void released(void* l) { if (cur >= 0) lock_clock[(uptr)l].join(fibers[cur].c), ++fibers[cur].c.c[cur], ++stores; }

extern "C"
{
    int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) noexcept { if (!modelled_now()) REAL(pthread_mutex_init, m, a); memset((void*)m, 0, sizeof *m); return 0; }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (!modelled_now()) REAL(pthread_mutex_destroy, m); if (M(m)->owner1) mc::fail("a held mutex is destroyed"); return 0; }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_mutex_lock, m);
        block("acquiring a mutex", [m] { return M(m)->owner1 == 0; });
        M(m)->owner1 = me() + 1; acquired(m); return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_mutex_trylock, m);
        point();
        if (M(m)->owner1) return EBUSY;
        M(m)->owner1 = me() + 1; acquired(m); return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_mutex_unlock, m);
        point();
        if (M(m)->owner1 != me() + 1) mc::fail("thread %d releases a mutex it does not hold", me());
        released(m); M(m)->owner1 = 0; return 0;
    }
    int pthread_rwlock_init(pthread_rwlock_t* m, pthread_rwlockattr_t const* a) noexcept { if (!modelled_now()) REAL(pthread_rwlock_init, m, a); memset((void*)m, 0, sizeof *m); return 0; }
    int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept { if (!modelled_now()) REAL(pthread_rwlock_destroy, m); if (R(m)->writer1 || readers(R(m))) mc::fail("a held shared mutex is destroyed"); return 0; }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_rwlock_wrlock, m);
        block("acquiring a shared mutex", [m] { return R(m)->writer1 == 0 && readers(R(m)) == 0; });
        R(m)->writer1 = me() + 1; acquired(m); return 0;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_rwlock_trywrlock, m);
        point();
        if (R(m)->writer1 || readers(R(m))) return EBUSY;
        R(m)->writer1 = me() + 1; acquired(m); return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_rwlock_rdlock, m);
        block("acquiring a shared mutex shared", [m] { return R(m)->writer1 == 0; });
        ++R(m)->readers[me()]; acquired(m); return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_rwlock_tryrdlock, m);
        point();
        if (R(m)->writer1) return EBUSY;
        ++R(m)->readers[me()]; acquired(m); return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
    {
        if (!modelled_now()) REAL(pthread_rwlock_unlock, m);
        point();
        auto s = R(m);
        if (s->writer1 == me() + 1) { released(m); s->writer1 = 0; }
        else if (s->readers[me()] > 0) { released(m); --s->readers[me()]; }
        else mc::fail("thread %d releases a shared mutex it does not hold", me());
        return 0;
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!modelled_now()) REAL(pthread_cond_signal, c); point(); for (auto w : waiters) if (w->c == c && !w->woken) { w->woken = true; ++stores; break; } return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!modelled_now()) REAL(pthread_cond_broadcast, c); point(); for (auto w : waiters) if (w->c == c) w->woken = true, ++stores; return 0; }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!modelled_now()) REAL(pthread_cond_wait, c, m);
        waiter w{ c, cur, false }; waiters.push_back(&w);
        pthread_mutex_unlock(m);
        block("waiting for a condition", [&w] { return w.woken; });
        for (size_t i = 0; i < waiters.size(); ++i) if (waiters[i] == &w) { waiters.erase(waiters.begin() + long(i)); break; }
        return pthread_mutex_lock(m);
    }
    int sched_yield() noexcept
    {
        if (cur < 0) REAL(sched_yield);
        // gives way to somebody else when there is one
        ++points; if (points > 20000) mc::fail("the threads do not finish within 20000 operations");
        int t = next_thread(false); if (t >= 0 && t != cur) go(t);
        return 0;
    }
}
