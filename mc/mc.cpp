#include "mc.h"
#include <vector>
#include <set>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" char const* __asan_default_options() { return "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=1:exitcode=11:abort_on_error=0:detect_stack_use_after_return=0"; }
extern "C" char const* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=11"; }
#endif
#endif

namespace mc
{
    bool thorough = false;
    bool replaying = false;

    static std::vector<scenario>& all() { static std::vector<scenario> v; return v; }
    void add(scenario const& s) { all().push_back(s); }

    // exit codes of a worker / the harness: 0 fine, 10 oracle, 11 crash, 12 hang, 2 internal error
    enum { RC_OK = 0, RC_INTERNAL = 2, RC_ORACLE = 10, RC_CRASH = 11, RC_HANG = 12, RC_DIVERGE = 13 };

    static size_t c_table = size_t(1) << 26;       // thorough: 2^28
    static size_t c_frontier = size_t(1) << 23;    // thorough: 2^25
    static constexpr int c_maxhist = 48;

    struct hist_t { unsigned char n; unsigned char op[c_maxhist]; };

    struct shared
    {
        u64 executions, transitions, states, outcomes, nontrivials, branches;
        u64 next_task;
        u64 claimed_replay;   // first failing worker writes the replay
        u64 frontier_n;
        int  samples;
        int  nhit; char hit[64][120];   // listed known findings that were met
        char sample_text[24][600];
    };
    static shared* sh;
    static u64* table;        // visited states
    static u64* otable;       // observed outcomes
    static size_t c_otable = size_t(1) << 22;      // thorough: 2^26
    static hist_t *fr[2];

    static void* share(size_t n)
    {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(RC_INTERNAL); }
        return p;
    }

    static bool insert(u64* t, size_t size, u64 h, u64& count)
    {
        if (h == 0) h = 1;
        size_t i = h & (size - 1);
        for (size_t probes = 0; probes < size / 2; ++probes, i = (i + 1) & (size - 1))
        {
            u64 v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
            if (v == h) return false;
            if (v == 0)
            {
                u64 z = 0;
                if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                {
                    u64 c = __atomic_add_fetch(&count, 1, __ATOMIC_RELAXED);
                    if (c > size / 4 * 3) { fprintf(stderr, "mc: hash table full: reduce the bound\n"); _exit(RC_INTERNAL); }
                    return true;
                }
                if (z == h) return false;
            }
        }
        _exit(RC_INTERNAL);
    }

    // ---- per worker execution context
    static scenario const* cur;
    static std::vector<int> ch, ar;          // dfs choices and their arities
    static size_t pos;
    static int ch_live[1 << 16];             // copy readable from a signal handler
    static size_t ch_live_n;
    static volatile u64 cur_at;
    static hist_t cur_hist;
    static char tracebuf[1 << 16];
    static size_t trace_n;
    static volatile u64 exec_serial;
    static u64 l_exec, l_trans, l_nontriv, l_branch;
    static char const* outdir = "/tmp";
    static char const* property = "C00";
    static char const* config = "default";
    static bool in_exec = false;
    static std::set<std::string> knowns;

    static void flush()
    {
        __atomic_add_fetch(&sh->executions, l_exec, __ATOMIC_RELAXED); l_exec = 0;
        __atomic_add_fetch(&sh->transitions, l_trans, __ATOMIC_RELAXED); l_trans = 0;
        __atomic_add_fetch(&sh->nontrivials, l_nontriv, __ATOMIC_RELAXED); l_nontriv = 0;
        __atomic_add_fetch(&sh->branches, l_branch, __ATOMIC_RELAXED); l_branch = 0;
    }

    static void write_replay(char const* what, char const* msg);
    // the same prefix of choices led somewhere else: the implementation (or the harness) is not a function of them
    [[noreturn]] static void diverged()
    {
        if (replaying) { printf("REPLAY-FAIL divergence\n%s", tracebuf); fflush(stdout); _exit(RC_DIVERGE); }
        write_replay("divergence", "the same choices led to a different execution");
        _exit(RC_DIVERGE);
    }

    int choose(int n)
    {
        if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(RC_INTERNAL); }
        if (n == 1) return 0;
        ++l_branch;
        if (pos == ch.size()) { ch.push_back(0); ar.push_back(n); if (pos < (1 << 16)) ch_live[pos] = 0; }
        else if (ar[pos] == -1) ar[pos] = n;
        else if (ar[pos] != n) diverged();
        if (ch[pos] >= n) diverged();
        if (pos < (1 << 16)) ch_live[pos] = ch[pos];
        ch_live_n = pos + 1;
        return ch[pos++];
    }
    void at(u64 i) { cur_at = i; exec_serial = exec_serial + 1; ++l_exec; }
    void step(u64 n) { l_trans += n; }
    void nontrivial(u64 n) { l_nontriv += n; }
    // a full table stops counting (the counts become lower bounds) and answers `new`: nothing is pruned that was not seen
    static bool count(u64* t, size_t size, u64 h, u64& n) { return __atomic_load_n(&n, __ATOMIC_RELAXED) > size / 8 * 5 || insert(t, size, h, n); }
    bool state(u64 h) { return count(table, c_table, h, sh->states); }
    void outcome(u64 h) { count(otable, c_otable, h, sh->outcomes); }
    bool want_sample() { return !replaying && __atomic_load_n(&sh->samples, __ATOMIC_RELAXED) < 12 && (l_exec & (l_exec - 1)) == 0; }
    void sample(char const* fmt, ...)
    {
        int i = __atomic_fetch_add(&sh->samples, 1, __ATOMIC_RELAXED);
        if (i >= 24) return;
        va_list a; va_start(a, fmt); vsnprintf(sh->sample_text[i], sizeof sh->sample_text[i], fmt, a); va_end(a);
    }
    void trace(char const* fmt, ...)
    {
        if (trace_n + 400 > sizeof tracebuf) return;
        va_list a; va_start(a, fmt); int k = vsnprintf(tracebuf + trace_n, 380, fmt, a); va_end(a);
        if (k > 379) k = 379;
        if (k > 0) trace_n += size_t(k);
        tracebuf[trace_n++] = '\n';
        tracebuf[trace_n] = 0;
    }
    bool is_known(char const* key) { return knowns.count(key) != 0; }

    // ---- replay file, written with async-signal-safe calls only
    struct out_t
    {
        int fd; char b[4096]; size_t n = 0;
        void put(char c) { if (n == sizeof b) fl(); b[n++] = c; }
        void s(char const* p) { while (*p) put(*p++); }
        void d(u64 v) { char t[24]; int i = 0; do t[i++] = char('0' + v % 10), v /= 10; while (v); while (i) put(t[--i]); }
        void fl() { size_t o = 0; while (o < n) { auto k = ::write(fd, b + o, n - o); if (k <= 0) break; o += size_t(k); } n = 0; }
    };
    static void write_replay(char const* what, char const* msg)
    {
        if (!sh || !cur) return;
        u64 z = 0;
        if (!__atomic_compare_exchange_n(&sh->claimed_replay, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return;
        char path[600]; size_t k = 0;
        for (char const* p = outdir; *p && k < 500; ++p) path[k++] = *p;
        for (char const* p = "/replay.tmp"; *p; ++p) path[k++] = *p;
        path[k] = 0;
        static out_t o;
        o.n = 0;
        o.fd = ::open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (o.fd < 0) return;
        o.s("property="); o.s(property); o.s("\nconfig="); o.s(config); o.s("\ntier="); o.s(thorough ? "thorough" : "quick");
        o.s("\nscenario="); o.s(cur->name); o.s("\nkind="); o.s(cur->kind == 0 ? "dfs" : cur->kind == 1 ? "bfs" : "sweep");
        o.s("\nchoices=");
        if (cur->kind == 0) for (size_t i = 0; i < ch_live_n && i < (1 << 16); ++i) { if (i) o.put(','); o.d(u64(ch_live[i])); }
        else if (cur->kind == 1) for (int i = 0; i < cur_hist.n; ++i) { if (i) o.put(','); o.d(cur_hist.op[i]); }
        else o.d(cur_at);
        o.s("\nwhat="); o.s(what); o.s("\nmessage="); o.s(msg); o.s("\ntrace:\n"); o.s(tracebuf); o.fl();
        ::close(o.fd);
    }

    void fail(char const* fmt, ...)
    {
        char m[2000]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
        for (char* p = m; *p; ++p) if (*p == '\n') *p = ' ';
        if (replaying) { printf("REPLAY-FAIL oracle: %s\n%s", m, tracebuf); fflush(stdout); _exit(RC_ORACLE); }
        write_replay("oracle", m);
        _exit(RC_ORACLE);
    }
    void known(char const* key, char const* fmt, ...)
    {
        // a violation listed in the known-findings file is counted by the driver, anything else fails
        if (is_known(key))
        {
            for (int i = 0; i < sh->nhit && i < 64; ++i) if (!strcmp(sh->hit[i], key)) return;
            int i = __atomic_fetch_add(&sh->nhit, 1, __ATOMIC_RELAXED);
            if (i < 64) snprintf(sh->hit[i], sizeof sh->hit[i], "%s", key);
            return;
        }
        char m[2000]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
        fail("%s [finding key %s is not listed]", m, key);
    }

    static void on_crash(int sig)
    {
        char const* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGTRAP ? "SIGTRAP (failed CE_ASSERT / debug break)" : "SIGABRT";
        if (replaying) { static out_t o; o.fd = 1; o.n = 0; o.s("REPLAY-FAIL crash: "); o.s(n); o.s("\n"); o.s(tracebuf); o.fl(); _exit(RC_CRASH); }
        write_replay("crash", n);
        _exit(in_exec ? RC_CRASH : RC_INTERNAL);
    }
#ifdef MC_ASAN
    static void on_death()
    {
        if (replaying) { static out_t o; o.fd = 1; o.n = 0; o.s("REPLAY-FAIL sanitizer report\n"); o.s(tracebuf); o.fl(); _exit(RC_CRASH); }
        write_replay("sanitizer", "sanitizer report (see log)");
        _exit(RC_CRASH);
    }
#endif
    static u64 tick_serial; static int tick_same; static int hang_ticks = 20;
    void slow_execution(int seconds) { if (hang_ticks < 2 * seconds) hang_ticks = 2 * seconds; }
    static void on_tick(int)
    {
        if (!in_exec) { tick_same = 0; return; }
        if (exec_serial != tick_serial) { tick_serial = exec_serial; tick_same = 0; return; }
        if (++tick_same < hang_ticks) return;
        if (replaying) { static out_t o; o.fd = 1; o.n = 0; o.s("REPLAY-FAIL hang: one execution used more CPU time than allowed\n"); o.s(tracebuf); o.fl(); _exit(RC_HANG); }
        write_replay("hang", "one execution did not finish within its CPU budget");
        _exit(RC_HANG);
    }

    static void arm()
    {
        static char alt[1 << 16];
        stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
        struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; 
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT }) sigaction(s, &sa, nullptr);
        struct sigaction ta{}; ta.sa_handler = on_tick; ta.sa_flags = SA_ONSTACK | SA_RESTART;
        sigaction(SIGPROF, &ta, nullptr);
        itimerval tv{}; tv.it_interval.tv_usec = 500000; tv.it_value.tv_usec = 500000;
        setitimer(ITIMER_PROF, &tv, nullptr);
#ifdef MC_ASAN
        __sanitizer_set_death_callback(on_death);
#endif
    }

    static void begin_exec() { pos = 0; ch_live_n = 0; trace_n = 0; tracebuf[0] = 0; exec_serial = exec_serial + 1; in_exec = true; }
    static void end_exec() { in_exec = false; ++l_exec; }

    static void run_dfs_once() { begin_exec(); cur->dfs(); end_exec(); }

    // explore everything below a prefix
    static void dfs_below(std::vector<int> const& prefix, std::vector<int> const& par)
    {
        ch = prefix; ar = par;
        for (;;)
        {
            run_dfs_once();
            if (pos < prefix.size()) return;
            ch.resize(pos); ar.resize(pos);
            while (ch.size() > prefix.size() && ch.back() + 1 >= ar.back()) ch.pop_back(), ar.pop_back();
            if (ch.size() == prefix.size()) return;
            ++ch.back();
        }
    }

    struct task { scenario const* s; std::vector<int> prefix, par; u64 lo, hi; };

    static int wait_all(std::vector<pid_t>& pids)
    {
        int worst = 0;
        for (size_t left = pids.size(); left > 0; --left)
        {
            int st = 0; pid_t p = wait(&st);
            if (p < 0) break;
            int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            if (rc == 0) continue;
            if (worst == 0)
            {
                worst = rc;
                for (auto q : pids) if (q != p) kill(q, SIGKILL);
            }
        }
        pids.clear();
        return worst;
    }

    template<class F> static int parallel(int jobs, F f)
    {
        fflush(nullptr);
        std::vector<pid_t> pids;
        for (int j = 0; j < jobs; ++j)
        {
            pid_t p = fork();
            if (p < 0) { perror("fork"); _exit(RC_INTERNAL); }
            if (p == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                arm();
                f();
                flush();
                _exit(0);
            }
            pids.push_back(p);
        }
        return wait_all(pids);
    }

    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
}

using namespace mc;

static void json_str(FILE* f, char const* p)
{
    fputc('"', f);
    for (; *p; ++p)
    {
        unsigned char c = (unsigned char)*p;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static int do_replay(char const* file)
{
    FILE* f = fopen(file, "r");
    if (!f) { perror(file); return RC_INTERNAL; }
    std::string scen, choices; static char line[1 << 20];
    while (fgets(line, sizeof line, f))
    {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "scenario=", 9)) scen = line + 9;
        else if (!strncmp(line, "choices=", 8)) choices = line + 8;
        else if (!strcmp(line, "tier=thorough")) thorough = true;
        else if (!strcmp(line, "trace:")) break;
    }
    fclose(f);
    std::vector<u64> v;
    for (char const* p = choices.c_str(); *p;) { char* e; v.push_back(strtoull(p, &e, 10)); p = *e ? e + 1 : e; }
    for (auto& s : all()) if (scen == s.name)
    {
        cur = &s; replaying = true; hang_ticks = 80; arm();
        printf("replaying %s %s\n", s.name, choices.c_str());
        if (s.kind == 0)
        {
            for (auto x : v) ch.push_back(int(x)), ar.push_back(-1);
            run_dfs_once();
        }
        else if (s.kind == 1)
        {
            cur_hist.n = (unsigned char)v.size(); for (size_t i = 0; i < v.size(); ++i) cur_hist.op[i] = (unsigned char)v[i];
            bool ok = true; begin_exec(); s.bfs(cur_hist.op, cur_hist.n, ok); end_exec();
        }
        else { begin_exec(); s.sweep(v.empty() ? 0 : v[0], v.empty() ? 1 : v[0] + 1); end_exec(); }
        printf("REPLAY-OK\n%s", tracebuf);
        return 0;
    }
    fprintf(stderr, "mc: no scenario %s\n", scen.c_str());
    return RC_INTERNAL;
}

int main(int argc, char** argv)
{
    int jobs = 8; char const* stats = nullptr; char const* replay = nullptr; char const* only = nullptr; char const* kf = nullptr;
    for (int i = 1; i < argc; ++i)
    {
        auto is = [&](char const* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
        if (is("--jobs")) jobs = atoi(argv[++i]);
        else if (is("--tier")) thorough = !strcmp(argv[++i], "thorough");
        else if (is("--stats")) stats = argv[++i];
        else if (is("--out")) outdir = argv[++i];
        else if (is("--property")) property = argv[++i];
        else if (is("--config")) config = argv[++i];
        else if (is("--replay")) replay = argv[++i];
        else if (is("--only")) only = argv[++i];
        else if (is("--known")) kf = argv[++i];
        else { fprintf(stderr, "mc: bad argument %s\n", argv[i]); return RC_INTERNAL; }
    }
    sh = (shared*)share(sizeof(shared));
    if (thorough) c_table <<= 2, c_otable <<= 4, c_frontier <<= 2;
    table = (u64*)share(c_table * 8);
    otable = (u64*)share(c_otable * 8);
    if (kf)
        if (FILE* f = fopen(kf, "r"))
        {
            static char l[4096];
            while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (*l) knowns.insert(l); }
            fclose(f);
        }
    if (replay) return do_replay(replay);

    FILE* out = stats ? fopen(stats, "w") : stdout;
    if (!out) { perror(stats); return RC_INTERNAL; }
    fprintf(out, "{\"scenarios\":[");
    bool first = true;
    int rc = 0;
    for (auto& s : all())
    {
        if (s.thorough_only && !thorough) continue;
        if (only && strcmp(only, s.name)) continue;
        cur = &s;
        double t0 = now();
        u64 e0 = sh->executions, tr0 = sh->transitions, st0 = sh->states, o0 = sh->outcomes, n0 = sh->nontrivials, b0 = sh->branches;
        u64 levels = 0; bool closed = false; u64 bound = 0;
        if (s.kind == 0)
        {
            // split the tree into prefixes, then explore every subtree
            std::vector<task> ts; ts.push_back({ &s, {}, {}, 0, 0 });
            int want = jobs * 24;
            // prefixes are produced by a forked process so that a failing execution is reported the same way
            char tmp[] = "/tmp/mcXXXXXX"; int fd = mkstemp(tmp); unlink(tmp);
            rc = parallel(1, [&]
            {
                size_t head = 0; std::vector<task> done;
                while (head < ts.size() && int(ts.size() - head + done.size()) < want && head < 4000)
                {
                    task t = ts[head++];
                    ch = t.prefix; ar = t.par; run_dfs_once();
                    l_exec = 0; l_trans = 0; l_branch = 0; l_nontriv = 0;
                    if (ch.size() <= t.prefix.size()) { done.push_back(t); continue; }
                    int n = ar[t.prefix.size()];
                    for (int c = 0; c < n; ++c) { task u = t; u.prefix.push_back(c); u.par.push_back(n); ts.push_back(u); }
                }
                for (; head < ts.size(); ++head) done.push_back(ts[head]);
                FILE* f = fdopen(dup(fd), "w");
                for (auto& t : done) { fprintf(f, "%zu", t.prefix.size()); for (size_t i = 0; i < t.prefix.size(); ++i) fprintf(f, " %d %d", t.prefix[i], t.par[i]); fprintf(f, "\n"); }
                fclose(f);
            });
            if (rc == 0)
            {
                ts.clear(); lseek(fd, 0, SEEK_SET); FILE* f = fdopen(fd, "r"); size_t k;
                while (fscanf(f, "%zu", &k) == 1) { task t{ &s, {}, {}, 0, 0 }; for (size_t i = 0; i < k; ++i) { int a, b; if (fscanf(f, "%d %d", &a, &b) != 2) return RC_INTERNAL; t.prefix.push_back(a); t.par.push_back(b); } ts.push_back(t); }
                fclose(f);
                sh->next_task = 0;
                rc = parallel(jobs, [&] { for (;;) { u64 i = __atomic_fetch_add(&sh->next_task, 1, __ATOMIC_RELAXED); if (i >= ts.size()) break; dfs_below(ts[i].prefix, ts[i].par); flush(); } });
            }
            else close(fd);
            closed = true;
        }
        else if (s.kind == 1)
        {
            if (!fr[0]) fr[0] = (hist_t*)share(c_frontier * sizeof(hist_t)), fr[1] = (hist_t*)share(c_frontier * sizeof(hist_t));
            int depth = thorough ? s.depth_thorough : s.depth_quick;
            if (depth > c_maxhist) return RC_INTERNAL;
            bound = u64(depth);
            u64 salt; { hasher h; h.s(s.name); salt = h; }
            auto visit = [&](hist_t const& h, int into, bool last)
            {
                cur_hist = h; bool ok = true; begin_exec();
                u64 c = s.bfs(h.op, h.n, ok);
                in_exec = false;
                if (!ok) return;
                ++l_exec; if (h.n) ++l_trans;
                hasher g; g.h = salt; g.u(c);
                if (insert(table, c_table, g, sh->states))
                {
                    u64 k = __atomic_fetch_add(&sh->frontier_n, 1, __ATOMIC_RELAXED);
                    if (last) return;      // nothing below the bound is expanded
                    if (k >= c_frontier) { fprintf(stderr, "mc: frontier full: reduce the bound\n"); _exit(RC_INTERNAL); }
                    fr[into][k] = h;
                }
            };
            sh->frontier_n = 0;
            rc = parallel(1, [&] { hist_t h{}; visit(h, 0, depth == 0); });
            u64 n = sh->frontier_n; int side = 0;
            for (int d = 0; rc == 0 && d < depth && n > 0; ++d)
            {
                sh->frontier_n = 0; sh->next_task = 0;
                rc = parallel(n < 64 ? 1 : jobs, [&]
                {
                    for (;;)
                    {
                        u64 i = __atomic_fetch_add(&sh->next_task, 8, __ATOMIC_RELAXED);
                        if (i >= n) break;
                        for (u64 k = i; k < i + 8 && k < n; ++k)
                            for (int op = 0; op < s.nops; ++op) { hist_t h = fr[side][k]; h.op[h.n++] = (unsigned char)op; visit(h, !side, d + 1 == depth); }
                    }
                });
                n = sh->frontier_n; side = !side; ++levels;
            }
            closed = n == 0;     // fixpoint: every reachable state was expanded
        }
        else
        {
            u64 size = thorough ? s.size_thorough : s.size_quick;
            bound = size;
            sh->next_task = 0;
            rc = parallel(jobs, [&]
            {
                for (;;)
                {
                    u64 lo = __atomic_fetch_add(&sh->next_task, s.chunk, __ATOMIC_RELAXED);
                    if (lo >= size) break;
                    begin_exec(); cur_at = lo;
                    s.sweep(lo, lo + s.chunk < size ? lo + s.chunk : size);
                    in_exec = false;
                    flush();
                }
            });
            closed = true;
        }
        fprintf(out, "%s\n{\"name\":\"%s\",\"kind\":\"%s\",\"rc\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"nontrivial\":%llu,\"branches\":%llu,\"bound\":%llu,\"levels\":%llu,\"complete\":%s,\"wall_s\":%.3f}",
            first ? "" : ",", s.name, s.kind == 0 ? "dfs" : s.kind == 1 ? "bfs" : "sweep", rc,
            sh->executions - e0, sh->transitions - tr0, sh->states - st0, sh->outcomes - o0, sh->nontrivials - n0, sh->branches - b0, bound, levels, rc == 0 && closed ? "true" : "false", now() - t0);
        first = false;
        if (rc != 0) break;
    }
    fprintf(out, "],\n\"samples\":[");
    for (int i = 0; i < sh->samples && i < 24; ++i) { if (i) fprintf(out, ",\n"); json_str(out, sh->sample_text[i]); }
    fprintf(out, "],\"known_hit\":[");
    { std::set<std::string> h; for (int i = 0; i < sh->nhit && i < 64; ++i) h.insert(sh->hit[i]); bool f1 = true; for (auto& k : h) { if (!f1) fputc(',', out); f1 = false; json_str(out, k.c_str()); } }
    fprintf(out, "],\"rc\":%d}\n", rc);
    if (out != stdout) fclose(out);
    return rc;
}
