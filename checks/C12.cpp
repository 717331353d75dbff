//@ level: model_checking
//@ technique: exhaustive enumeration (stateless search on the real macros) of every macro, condition value, extra argument list and environment answer (hook asks for a break or not), in checking and non-checking builds with default and user hooks
//@ note: Every sequence of up to two failing or passing checks per execution. The debugger trap is observed as SIGTRAP on this platform. Conditions are representative expressions, not all programs.
//@ cxx: -O0
//@ repo: os.cpp to_text.cpp
//@ config checked: -DLEVEL=1
//@ config unchecked: -DLEVEL=0 -DCE_USER_ERROR_LEVEL=0
//@ config checked_hook: -DLEVEL=1 -DHOOK
//@ config unchecked_hook: -DLEVEL=0 -DCE_USER_ERROR_LEVEL=0 -DHOOK
//@ config optimized: -DLEVEL=1 -DHOOK -O2
//@ bounds: 3 macros x 14 statements (up to 40 extra arguments, conditions and arguments of 700 characters, a line beyond 16 millions in a file with a long name) x both condition values x both hook answers, alone and after any other; CE_ERROR with 0..3 arguments; default hook: levels -128..127, 0..5 entries
//@ assume: debug_out is supplied by the harness; the SIGTRAP handler counts breaks and continues
#include "mc.h"
#include <csignal>
#include <string>
#include <vector>
#include <cstring>
using namespace mc;
using std::string;
struct call { bool is_log; int level; std::vector<std::pair<string, string>> kv; bool closed; };
static std::vector<call> calls;
static bool answer;
static string printed;
static string str(char const* s) { return s ? s : "(null)"; }
static bool capture(bool is_log, int level, int argc, char const* argv[][2])
{
    call c{ is_log, level, {}, argv[argc][0] == nullptr && argv[argc][1] == nullptr };
    for (int i = 0; i < argc; ++i) c.kv.push_back({ str(argv[i][0]), str(argv[i][1]) });
    calls.push_back(c);
    return answer;
}
#ifdef HOOK
#define CE_USER_LOG_HOOK(LEVEL_, ARGC, ...) capture(true, LEVEL_, ARGC, __VA_ARGS__)
#define CE_USER_ERROR_HOOK(LEVEL_, ARGC, ...) capture(false, LEVEL_, ARGC, __VA_ARGS__)
#endif
#include "ce/ce.h"
void ce::os::debug_out(char const* s) { if (s) printed += s; }

static volatile int traps;
static void on_trap(int) { traps = traps + 1; }

static bool C, D; static int evals, extra;
static bool ev(bool v) { ++evals; return v; }
static int ex(int v) { ++extra; return v; }
static int add(int a, int b) { return a + b; }
static bool comma(int, bool b) { return b; }
static int line_; static char const* file_ = __FILE__; static bool got; static string what, more; static std::vector<string> texts; static int kind_, want_evals;

// one line so that the line number is the macro's own
#define T(...) std::vector<string>{ __VA_ARGS__ }
#define STMT(N, EVALS, WHAT, MORE, TEXTS, ...) \
    static void a##N() { line_ = __LINE__; file_ = __FILE__; CE_ASSERT(__VA_ARGS__); } \
    static void v##N() { line_ = __LINE__; file_ = __FILE__; got = CE_VERIFY(__VA_ARGS__); } \
    static void r##N() { line_ = __LINE__; file_ = __FILE__; got = CE_REJECT(__VA_ARGS__); } \
    static void d##N() { what = WHAT; more = MORE; texts = TEXTS; want_evals = EVALS; }
STMT(0, 1, "ev(C)", "", T(), ev(C))
STMT(1, 1, "ev(C)", "ex(5)", T("5"), ev(C), ex(5))
STMT(2, 1, "ev(C)", "ex(5), ex(-6)", T("5", "-6"), ev(C), ex(5), ex(-6))
STMT(3, 1, "ev(C) && true", "\"text\", 'c'", T("text", "c"), ev(C) && true, "text", 'c')
STMT(4, 1, "false || ev(C)", "ex(1), true, nullptr", T("1", "#<T>", "#<nil>"), false || ev(C), ex(1), true, nullptr)
STMT(5, 1, "comma(1, ev(C))", "add(1, ex(2))", T("3"), comma(1, ev(C)), add(1, ex(2)))
STMT(6, 1, "ev(C) == true", "ex(1), ex(2), ex(3), ex(4), ex(5)", T("1", "2", "3", "4", "5"), ev(C) == true, ex(1), ex(2), ex(3), ex(4), ex(5))
STMT(7, 1, "(ev(!C), C)", "\"a,b\", ex(7)", T("a,b", "7"), (ev(!C), C), "a,b", ex(7))
STMT(8, 1, "ev(C) ? 1 < 2 : 1 > 2", "2.5", T("2.5"), ev(C) ? 1 < 2 : 1 > 2, 2.5)
STMT(9, 1, "!ev(!C)", "ex(9), -1", T("9", "-1"), !ev(!C), ex(9), -1)
STMT(10, 1, "ev(C)", "ex(1), ex(2), ex(3), ex(4), ex(5), ex(6), ex(7), ex(8), ex(9), ex(10), ex(11), ex(12), ex(13), ex(14), ex(15), ex(16), ex(17), ex(18), ex(19), ex(20), ex(21), ex(22), ex(23), ex(24), ex(25), ex(26), ex(27), ex(28), ex(29), ex(30), ex(31), ex(32), ex(33), ex(34), ex(35), ex(36), ex(37), ex(38), ex(39), ex(40)", T("1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "40"), ev(C), ex(1), ex(2), ex(3), ex(4), ex(5), ex(6), ex(7), ex(8), ex(9), ex(10), ex(11), ex(12), ex(13), ex(14), ex(15), ex(16), ex(17), ex(18), ex(19), ex(20), ex(21), ex(22), ex(23), ex(24), ex(25), ex(26), ex(27), ex(28), ex(29), ex(30), ex(31), ex(32), ex(33), ex(34), ex(35), ex(36), ex(37), ex(38), ex(39), ex(40))
STMT(11, 1, "ev(C) && 1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22 + 23 + 24 + 25 + 26 + 27 + 28 + 29 + 30 + 31 + 32 + 33 + 34 + 35 + 36 + 37 + 38 + 39 + 40 + 41 + 42 + 43 + 44 + 45 + 46 + 47 + 48 + 49 + 50 + 51 + 52 + 53 + 54 + 55 + 56 + 57 + 58 + 59 + 60 + 61 + 62 + 63 + 64 + 65 + 66 + 67 + 68 + 69 + 70 + 71 + 72 + 73 + 74 + 75 + 76 + 77 + 78 + 79 + 80 + 81 + 82 + 83 + 84 + 85 + 86 + 87 + 88 + 89 + 90 + 91 + 92 + 93 + 94 + 95 + 96 + 97 + 98 + 99 + 100 + 101 + 102 + 103 + 104 + 105 + 106 + 107 + 108 + 109 + 110 + 111 + 112 + 113 + 114 + 115 + 116 + 117 + 118 + 119 + 120 + 121 + 122 + 123 + 124 + 125 + 126 + 127 + 128 + 129 + 130 + 131 + 132 + 133 + 134 + 135 + 136 + 137 + 138 + 139 + 140 + 141 + 142 + 143 + 144 + 145 + 146 + 147 + 148 + 149 > 0", "\"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\", ex(3)", T("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "3"), ev(C) && 1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22 + 23 + 24 + 25 + 26 + 27 + 28 + 29 + 30 + 31 + 32 + 33 + 34 + 35 + 36 + 37 + 38 + 39 + 40 + 41 + 42 + 43 + 44 + 45 + 46 + 47 + 48 + 49 + 50 + 51 + 52 + 53 + 54 + 55 + 56 + 57 + 58 + 59 + 60 + 61 + 62 + 63 + 64 + 65 + 66 + 67 + 68 + 69 + 70 + 71 + 72 + 73 + 74 + 75 + 76 + 77 + 78 + 79 + 80 + 81 + 82 + 83 + 84 + 85 + 86 + 87 + 88 + 89 + 90 + 91 + 92 + 93 + 94 + 95 + 96 + 97 + 98 + 99 + 100 + 101 + 102 + 103 + 104 + 105 + 106 + 107 + 108 + 109 + 110 + 111 + 112 + 113 + 114 + 115 + 116 + 117 + 118 + 119 + 120 + 121 + 122 + 123 + 124 + 125 + 126 + 127 + 128 + 129 + 130 + 131 + 132 + 133 + 134 + 135 + 136 + 137 + 138 + 139 + 140 + 141 + 142 + 143 + 144 + 145 + 146 + 147 + 148 + 149 > 0, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", ex(3))
struct truth { bool b; explicit operator bool() const { return b; } };
STMT(12, 1, "truth{ ev(C) }.b", "", T(), truth{ ev(C) }.b)
#line 16777213 "some/far/away/place/with a name/which is very long/and goes on/for more than sixty four/and even one hundred and twenty eight characters/until it ends/in a file.cpp"
STMT(13, 1, "ev(C)", "ex(8)", T("8"), ev(C), ex(8))
#line 1000 "C12.cpp"
#define ALL(P) { P##0, P##1, P##2, P##3, P##4, P##5, P##6, P##7, P##8, P##9, P##10, P##11, P##12, P##13 }
static void (*const run_[3][14])() = { ALL(a), ALL(v), ALL(r) };
static void (*const desc[14])() = ALL(d);
static char const* const kinds[] = { "CE_ASSERT", "CE_VERIFY", "CE_REJECT", "CE_ERROR" };

static void begin() { struct sigaction s{}; s.sa_handler = on_trap; sigaction(SIGTRAP, &s, nullptr); traps = 0; evals = extra = 0; calls.clear(); printed.clear(); got = false; }
static string expected_log(char const* kind, string const& where)
{
    string s = "F: { \"" + string(kind) + "\": \"" + where + "\", \"" + what + "\": \"" + more + "\"";
    for (auto& t : texts) s += ", \"...\": \"" + t + "\"";
    s += " }\n******** FAILED ********\n" + where + ": " + kind + ": " + what + ": (" + more + ") = (";
    for (size_t i = 0; i < texts.size(); ++i) s += (i ? ", " : "") + texts[i];
    return s + ")\n";
}
static void verify(char const* kind, bool reported, bool breaks, int want_extra)
{
    string where = string(file_) + "(" + std::to_string(line_) + ")";
    hasher h; h.s(kind); h.s(what.c_str()); h.u(reported); h.u(u64(traps)); h.u(C); h.u(answer); state(h); outcome(h);
    MC_CHECK(extra == want_extra, "%s(%s): extra arguments evaluated %d times, expected %d", kind, what.c_str(), extra, want_extra);
    MC_CHECK(traps == (breaks ? 1 : 0), "%s(%s) with the condition %d: %d breaks, expected %d", kind, what.c_str(), C, int(traps), breaks);
#ifdef HOOK
    MC_CHECK(printed.empty(), "printed %s past the hooks", printed.c_str());
    if (!reported) { MC_CHECK(calls.empty(), "%s(%s) with the condition %d was reported", kind, what.c_str(), C); return; }
    MC_CHECK(calls.size() == 2 && calls[0].is_log && !calls[1].is_log, "%s(%s): %zu reports instead of a log and an error record", kind, what.c_str(), calls.size());
    for (auto& c : calls)
    {
        MC_CHECK(c.level == 0 && c.closed, "level %d of a failure record", c.level);
        MC_CHECK(c.kv.size() == 2 + texts.size(), "%zu entries for %zu extra arguments", c.kv.size(), texts.size());
        MC_CHECK(c.kv[0].first == kind && c.kv[0].second == where, "first entry <%s> <%s>, expected <%s> <%s>", c.kv[0].first.c_str(), c.kv[0].second.c_str(), kind, where.c_str());
        MC_CHECK(c.kv[1].first == what && c.kv[1].second == more, "second entry <%s> <%s>, expected <%s> <%s>", c.kv[1].first.c_str(), c.kv[1].second.c_str(), what.c_str(), more.c_str());
        for (size_t i = 0; i < texts.size(); ++i) MC_CHECK(c.kv[2 + i].first == "..." && c.kv[2 + i].second == texts[i], "argument %zu is <%s>, expected <%s>", i, c.kv[2 + i].second.c_str(), texts[i].c_str());
    }
#else
    string want = reported ? expected_log(kind, where) : "";
    MC_CHECK(printed == want, "%s(%s) with the condition %d printed <%s> expected <%s>", kind, what.c_str(), C, printed.c_str(), want.c_str());
#endif
}
static void one(int k, int n, bool c, bool ans)
{
    begin(); C = c; answer = ans; step();
    desc[n](); int args = 0; for (auto& e : more == "\"a,b\", ex(7)" ? string("ex(") : more) args += e == '('; // counts ex( and add(
    static const int ex_count[] = { 0, 1, 2, 0, 1, 1, 5, 1, 0, 1, 40, 1, 0, 1 };
    trace("%s(%s) condition %d hook answer %d", kinds[k], what.c_str(), c, ans);
    run_[k][n]();
    MC_CHECK(evals == want_evals, "%s(%s): condition evaluated %d times", kinds[k], what.c_str(), evals);
    if (k > 0) MC_CHECK(got == c, "%s(%s) yields %d for %d", kinds[k], what.c_str(), got, c);
    bool reported = LEVEL && (k == 2 ? c : !c);
#ifdef HOOK
    bool breaks = reported && ans;
#else
    bool breaks = reported; // the default hook asks for a break at level 0
#endif
    verify(kinds[k], reported, breaks, reported ? ex_count[n] : 0);
}
MC_DFS(statements)
{
    int k = choose(3), n = choose(14); bool c = choose(2), ans = choose(2);
    one(k, n, c, ans);
    if (want_sample()) sample("%s(%s) with condition %d and hook answer %d: %d breaks", kinds[k], what.c_str(), c, ans, int(traps));
}
MC_DFS(pairs)
{
    int k = choose(3), n = choose(14); bool c = choose(2), ans = choose(2); one(k, n, c, ans);
    int k2 = choose(3), n2 = choose(14); bool c2 = choose(2), ans2 = choose(2); one(k2, n2, c2, ans2);
}
// as parts of expressions and control flow
MC_DFS(expressions)
{
    bool c = choose(2), d = choose(2); answer = choose(2); int form = choose(7); step();
    begin(); C = c; D = d; int r = -1;
    switch (form)
    {
    case 0: if (CE_VERIFY(ev(C)) && CE_VERIFY(ev(D))) r = 1; else r = 0; MC_CHECK(r == (c && d) && evals == (c ? 2 : 1), "verify and verify"); break;
    case 1: if (CE_REJECT(ev(C)) || CE_REJECT(ev(D))) r = 1; else r = 0; MC_CHECK(r == (c || d) && evals == (c ? 1 : 2), "reject or reject"); break;
    case 2: r = CE_VERIFY(ev(C)) ? 5 : 6; MC_CHECK(r == (c ? 5 : 6), "verify in a conditional"); break;
    case 3: r = CE_REJECT(ev(C)) ? 5 : 6; MC_CHECK(r == (c ? 5 : 6), "reject in a conditional"); break;
    case 4: r = !CE_VERIFY(ev(C)); MC_CHECK(r == !c, "not verify"); break;
    case 5: r = !CE_REJECT(ev(C)); MC_CHECK(r == !c, "not reject"); break;
    case 6: if (D) CE_ASSERT(ev(C)); else r = 3; MC_CHECK(d ? evals == 1 : r == 3 && evals == 0, "assert in an if"); break;
    }
    int reports = 0;
    if (LEVEL) switch (form) { case 0: reports = !c || !d; break; case 1: reports = c || d; break; case 2: case 4: reports = !c; break; case 3: case 5: reports = c; break; case 6: reports = d && !c; break; }
#ifdef HOOK
    MC_CHECK(int(calls.size()) == reports * 2, "form %d with %d %d: %zu calls of the hooks", form, c, d, calls.size());
    MC_CHECK(traps == (answer ? reports : 0), "form %d with %d %d: %d breaks", form, c, d, int(traps));
#else
    MC_CHECK(traps == reports && printed.empty() == !reports, "form %d with %d %d: %d breaks", form, c, d, int(traps));
#endif
    hasher h; h.u(u64(form)); h.u(c); h.u(d); h.u(answer); state(h); outcome(h);
}
MC_DFS(errors)
{
    int n = choose(4); answer = choose(2); step();
    begin(); what = ""; texts.clear();
    if (n == 0) { more = ""; line_ = __LINE__; file_ = __FILE__; CE_ERROR(); }
    else if (n == 1) { more = "ex(4)"; texts = { "4" }; line_ = __LINE__; file_ = __FILE__; CE_ERROR(ex(4)); }
    else if (n == 2) { more = "\"bad, worse\", ex(1)"; texts = { "bad, worse", "1" }; line_ = __LINE__; file_ = __FILE__; CE_ERROR("bad, worse", ex(1)); }
    else { more = "ex(1), ex(2), ex(3)"; texts = { "1", "2", "3" }; line_ = __LINE__; file_ = __FILE__; CE_ERROR(ex(1), ex(2), ex(3)); }
    verify("CE_ERROR", true, true, n < 2 ? n : n == 2 ? 1 : 3);
}
// the default hook alone
MC_DFS(default_hook)
{
    int level = choose(256) - 128, argc = choose(6); bool null = argc == 0 && choose(2); step();
    begin(); answer = false;
    char const* argv[7][2] = { { "K", "f(1)" }, { "what", "more, x" }, { "...", "1" }, { "...", "" }, { "...", "t" }, { nullptr, nullptr } };
    argv[argc][0] = argv[argc][1] = nullptr;
    bool r = ce::os::error(level, argc, null ? nullptr : argv);
    string w = "******** FAILED ********\n";
    if (argc > 1) { w += "f(1): K: what: (more, x) = ("; for (int i = 2; i < argc; ++i) w += (i > 2 ? ", " : "") + string(argv[i][1]); w += ")\n"; }
    MC_CHECK(printed == w, "level %d, %d entries: printed <%s> expected <%s>", level, argc, printed.c_str(), w.c_str());
    MC_CHECK(r == (level == 0), "level %d: break is %d", level, r);
    hasher h; h.u(u64(level)); h.u(u64(argc)); state(h); outcome(h);
}
