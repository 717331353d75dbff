//@ level: model_checking
//@ technique: stateless exhaustive search over histories of service calls and system answers (the system calls of os_posix.cpp are interposed, so the explorer chooses what the clock and sleep report), plus exhaustive enumeration of clock readings and sleep times
//@ note: The real lib/os_posix.cpp is linked; clock_gettime, nanosleep and clock_nanosleep are the harness's; what reaches file descriptor 2 is captured in a memory file.
//@ cxx: -O2
//@ repo: os_posix.cpp
//@ config plain:
//@ config asan: -O1 -fsanitize=address -DSMALL
//@ bounds: histories of up to 3 (4) calls out of 17 services with every system answer; clock readings: all seconds boundaries and 2^26 (all 10^9) nanosecond parts; sleeps: every value below 2^26 (10^9) and all windows around multiples of 10^9 up to 2^64-1; texts: every single byte, all lengths up to 300, lengths around powers of two up to 2^24
//@ assume: a write to standard error by the system is not short; clock seconds fit (up to 9223372035)
#include "mc.h"
#include "ce/ce.h"
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
using namespace mc;

// ---- the system
static bool g_on;
static struct { long sec, nsec; bool fails; int calls; } g_clock;
static struct { int calls; long sec, nsec; bool absolute; bool interrupted; bool bad; } g_sleep;
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (!g_on) return int(syscall(SYS_clock_gettime, id, ts));
    ++g_clock.calls;
    if (g_clock.fails) { ts->tv_sec = 424242; ts->tv_nsec = 4242; errno = EINVAL; return -1; }
    ts->tv_sec = g_clock.sec; ts->tv_nsec = g_clock.nsec;
    if (id != CLOCK_MONOTONIC_RAW) ts->tv_sec += 100 + id, ts->tv_nsec ^= 1;   // any other clock reads differently
    return 0;
}
static int asleep(timespec const* req, timespec* rem, bool abs)
{
    ++g_sleep.calls; g_sleep.sec = req->tv_sec; g_sleep.nsec = req->tv_nsec; g_sleep.absolute = abs;
    if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) g_sleep.bad = true;
    if (g_sleep.interrupted) { if (rem) *rem = { req->tv_sec / 2, req->tv_nsec / 2 }; errno = EINTR; return -1; }
    return 0;
}
extern "C" int nanosleep(timespec const* req, timespec* rem) { if (!g_on) return int(syscall(SYS_nanosleep, req, rem)); return asleep(req, rem, false); }
extern "C" int clock_nanosleep(clockid_t id, int flags, timespec const* req, timespec* rem) { if (!g_on) return int(syscall(SYS_clock_nanosleep, id, flags, req, rem)) ? errno : 0; return asleep(req, rem, flags != 0) ? EINTR : 0; }
struct on { on() { g_on = true; } ~on() { g_on = false; } };

static u64 timestamp() { on o; return ce::os::monotonic_timestamp(); }
static void timestamp_is(long sec, long nsec, bool fails)
{
    g_clock = { sec, nsec, fails, 0 };
    u64 t = timestamp(), want = fails ? 0 : u64(sec) * 1000000000u + u64(nsec);
    MC_CHECK(t == want, "monotonic_timestamp is %llu when the raw clock %s %ld s %ld ns", t, fails ? "fails at" : "reads", sec, nsec);
}
static void sleep_is(u64 ns, bool interrupted)
{
    g_sleep = {}; g_sleep.interrupted = interrupted;
    { on o; ce::os::sleep_ns(ns); }
    MC_CHECK(g_sleep.calls == 1 && !g_sleep.absolute && !g_sleep.bad, "sleep_ns(%llu) asked for %d sleeps (%s%s)", ns, g_sleep.calls, g_sleep.absolute ? "absolute " : "", g_sleep.bad ? "invalid" : "");
    MC_CHECK(u64(g_sleep.sec) == ns / 1000000000 && u64(g_sleep.nsec) == ns % 1000000000, "sleep_ns(%llu) asked for %ld s %ld ns", ns, g_sleep.sec, g_sleep.nsec);
}
static std::string captured(char const* text)
{
    static int mem = memfd_create("err", 0), saved = fcntl(2, F_DUPFD_CLOEXEC, 100);
    ftruncate(mem, 0); lseek(mem, 0, SEEK_SET);
    dup2(mem, 2);
    { on o; ce::os::debug_out(text); }
    fflush(stderr);
    dup2(saved, 2);
    long n = lseek(mem, 0, SEEK_END);
    std::string s(size_t(n), 0);
    if (n) pread(mem, &s[0], size_t(n), 0);
    return s;
}
static int captured_stdout_len(char const* text, std::string& err)
{
    static int mem = memfd_create("out", 0), saved = fcntl(1, F_DUPFD_CLOEXEC, 100);
    ftruncate(mem, 0); lseek(mem, 0, SEEK_SET); fflush(stdout); dup2(mem, 1);
    err = captured(text);
    fflush(stdout); dup2(saved, 1);
    return int(lseek(mem, 0, SEEK_END));
}
static void text_is(std::string const& t)
{
    std::unique_ptr<char[]> m(new char[t.size() + 1]); memcpy(m.get(), t.c_str(), t.size() + 1);
    std::string err; int out = captured_stdout_len(m.get(), err);
    MC_CHECK(err == t && out == 0, "debug_out of %zu characters wrote %zu to standard error and %d to standard output", t.size(), err.size(), out);
}

struct __attribute__((aligned(8))) pod { u64 a, b; char c[8]; };
MC_DFS(histories)
{
    static long const secs[] = { 0, 1, 9223372035 }, nsecs[] = { 0, 1, 999999999 };
    static u64 const sleeps[] = { 0, 1, 999999999, 1000000000, 1000000001, 12345678901234567ull, ~u64(0) };
    static char const* const paths[] = { "", "/proc/self/exe", "/nonexistent/file", "." };
    static u64 const sizes[] = { 0, 1, 4096, u64(1) << 40 };
    static unsigned char junk[64];
    g_clock = {}; 
    ce::span<uint8_t const> v; memset((void*)&v, 0x5b, sizeof v); v.data = junk; v.size = 64;
    ce::os::file_t f; f.os_handle = junk;
    hasher h;
    int depth = thorough ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        int op = choose(18); h.u(op); if (op == 17) break; step();
        char const* r = nullptr; int k = 0;
        switch (op)
        {
        case 0: { long s = pick(secs), n = pick(nsecs); timestamp_is(s, n, false); break; }
        case 1: timestamp_is(5, 6, true); break;
        case 2: { on o; u64 q = ce::os::monotonic_frequency(); MC_CHECK(q == 1000000000u, "monotonic_frequency is %llu", q); break; }
        case 3: k = choose(7); sleep_is(sleeps[k], false); break;
        case 4: k = choose(7); sleep_is(sleeps[k], true); break;
        case 5: MC_CHECK(captured(nullptr).empty(), "debug_out of a null text writes something"); break;
        case 6: { static char const* const t[] = { "", "a", "two\nlines\n", "%s%d%n" }; k = choose(4); text_is(t[k]); break; }
        case 7: k = choose(4); if (ce::os::open_file(f, paths[k])) r = "open_file"; break;
        case 8: if (ce::os::close_file(f)) r = "close_file"; break;
        case 9: if (ce::os::map_span(v, f)) r = "map_span(file)"; else if (v.size || v.data) r = "map_span(file): the span of a failure"; break;
        case 10: k = choose(4); if (ce::os::map_span(v, paths[k])) r = "map_span(path)"; else if (v.size || v.data) r = "map_span(path): the span of a failure"; break;
        case 11: if (ce::os::unmap_span(v)) r = "unmap_span"; else if (v.size || v.data) r = "unmap_span: the span of a failure"; break;
        case 12: { auto s = ce::os::map_span<char>(static_cast<char const*>(paths[k = choose(4)])); if (s.size || s.data) r = "map_span<char>(path)"; break; }
        case 13: { auto s = ce::os::map_span<u64>(ce::os::file_t{ junk }); if (s.size || s.data) r = "map_span<u64>(file)"; break; }
        case 14: { auto s = ce::os::map_span<pod>(static_cast<char const*>(paths[k = choose(4)])); if (s.size || s.data) r = "map_span<struct>(path)"; break; }
        case 15: k = choose(4); if (ce::os::virtual_alloc(sizes[k])) r = "virtual_alloc"; break;
        case 16: v.data = junk; v.size = 64; f.os_handle = junk; break;
        }
        h.u(k);
        MC_CHECK(!r, "%s reports something else than failure", r);
        for (auto c : junk) MC_CHECK(c == 0, "a failing service wrote into the span");
    }
    h.u(v.size); state(h); outcome(h);
}
#ifdef SMALL
static u64 const stride = 257;
#else
static u64 const stride = 1;
#endif
MC_SWEEP(nanoseconds, u64(1) << 24, 1000000000, 1 << 16)
{
    for (u64 i = lo; i < hi; i += stride)
    {
        if (i % 64 == 0 || stride > 1) at(i);
        u64 n = thorough ? i : (i * 2654435761u + (i >> 3)) % 1000000000;
        for (long s : { 0l, 1l, 86400l, 9223372035l, long(n * 9 + i) }) timestamp_is(s, long(n), false);
        sleep_is(n, false); step(6); nontrivial();
    }
}
MC_SWEEP(seconds, u64(1) << 22, u64(1) << 30, 1 << 14)
{
    for (u64 i = lo; i < hi; i += stride)
    {
        if (i % 64 == 0 || stride > 1) at(i);
        u64 s = thorough ? i * 8 + i % 8 : i * 4398 + i % 4398;                      // up to 18446744073 and the int boundaries
        if (s > 18446744073u) s %= 18446744073u;
        for (long d : { -1l, 0l, 1l }) { u64 ns = s * 1000000000u + u64(d); sleep_is(ns, false); }
        if (s <= 9223372035u) { timestamp_is(long(s), 0, false); timestamp_is(long(s), 999999999, false); }
        step(5); nontrivial();
    }
}
MC_SWEEP(sleep_small, u64(1) << 25, u64(1) << 32, 1 << 16)
{
    for (u64 i = lo; i < hi; i += stride) { if (i % 64 == 0 || stride > 1) at(i); u64 v = thorough || i < (1 << 22) ? i : i * 128 + i % 128; sleep_is(v, false); sleep_is(u64(1) << (i & 63), false); sleep_is(~v, false); sleep_is((u64(1) << (i & 63)) - 1, i & 1); step(4); nontrivial(); }
}
MC_SWEEP(texts, 256 + 300 + 25 * 5, 256 + 300 + 25 * 5, 4)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 r = i;
        if (r < 256) { if (r) text_is(std::string(1, char(r))), text_is("x" + std::string(3, char(r)) + "\r\n"); continue; }
        r -= 256; std::string t;
        u64 n = r < 300 ? r : (u64(1) << (r - 300) / 5) + (r - 300) % 5 - 2;
        if (n > (1 << 24) + 2) n = 0;
        for (u64 k = 0; k < n; ++k) t += char(1 + (k * 7 + i) % 255);
        text_is(t); step(); nontrivial();
    }
}
