//@ level: exploration
//@ technique: bounded exhaustive enumeration of argument lists (program texts and characters of the source text) through the real logging macros, name splitter and default sink, against an independent splitter
//@ note: The splitter is decided on every well formed argument list text up to a length; the macros on every single, pair and selected triple of representative expressions; the sink on every level and record shape. Commas between template arguments and raw strings that contain a quote are outside the property.
//@ cxx: -O0
//@ repo: os.cpp to_text.cpp
//@ config sink:
//@ config hook: -DHOOK
//@ rule: a list with at least two arguments or at least one bracket or quote
//@ bounds: every text of up to 7 (thorough 8) characters over {a b space , ( ) [ ] { } " ' \} or over {a 1 ' , space ( ) " and a byte above 127} that is a well formed list; 16 expressions in lists of 1 and 2, 6 in lists of 3, one of 12; levels -300..300 and extremes; lists of 2..300 arguments with one of 17 lengths up to 100000 characters of 6 kinds at 3 places; records of 42 arguments and of arguments of 300 characters; sink records of up to 1000 entries and texts of up to 70000 characters
//@ assume: debug_out is supplied by the harness and collects what the sink prints
#include "mc.h"
#include <string>
#include <vector>
#include <climits>
#include <cstring>
using namespace mc;
using std::string;

struct record { int level; std::vector<std::pair<string, string>> kv; bool closed; };
static std::vector<record> records;
static string printed;
static int hits;
static string str(char const* s) { return s ? s : "(null)"; }
static void hook(int level, int argc, char const* argv[][2])
{
    record r{ level, {}, argv[argc][0] == nullptr && argv[argc][1] == nullptr };
    for (int i = 0; i < argc; ++i) r.kv.push_back({ str(argv[i][0]), str(argv[i][1]) });
    records.push_back(r);
}
#ifdef HOOK
#define CE_USER_LOG_HOOK(LEVEL, ARGC, ...) hook(LEVEL, ARGC, __VA_ARGS__)
#endif
#include "ce/ce.h"
void ce::os::debug_out(char const* s) { if (s) printed += s; }

static string line(int level, std::vector<std::pair<string, string>> const& kv)
{
    string s = string(1, "FEWNIDSM"[level < 0 ? 0 : level > 7 ? 7 : level]) + ": {"; char const* p = " ";
    for (auto& e : kv) s += p + ("\"" + e.first + "\": \"" + e.second + "\""), p = ", ";
    return s + " }\n";
}
static void expect(int level, std::vector<std::pair<string, string>> const& kv, int want_hits)
{
    step();
    hasher h; h.s(line(level, kv).c_str()); outcome(h);
#ifdef HOOK
    MC_CHECK(records.size() == 1, "%zu records instead of one", records.size());
    auto& r = records[0];
    MC_CHECK(r.level == level, "level %d expected %d", r.level, level);
    MC_CHECK(r.closed, "the record is not closed by a null pair");
    MC_CHECK(r.kv.size() == kv.size(), "%zu entries expected %zu", r.kv.size(), kv.size());
    for (size_t i = 0; i < kv.size(); ++i) MC_CHECK(r.kv[i] == kv[i], "entry %zu is <%s> = <%s> expected <%s> = <%s>", i, r.kv[i].first.c_str(), r.kv[i].second.c_str(), kv[i].first.c_str(), kv[i].second.c_str());
    MC_CHECK(printed.empty(), "something was printed past the hook");
#else
    MC_CHECK(printed == line(level, kv), "printed <%s> expected <%s>", printed.c_str(), line(level, kv).c_str());
#endif
    MC_CHECK(hits == want_hits, "arguments were evaluated %d times, expected %d", hits, want_hits);
    if (want_sample()) sample("%s", line(level, kv).c_str());
    records.clear(); printed.clear(); hits = 0;
}

// ---- the macros
static int a = 5, b = 6, arr[] = { 10, 20, 30 };
static int f(int x, int y) { return x + y; }
static int hit() { ++hits; return 7; }
struct P { int x, y; };
struct two { int x, y; };
static int sum(two t) { return t.x + t.y; }
struct list_case { void (*run)(); int n, hits; char const* name[12]; char const* text[12]; };
static const list_case lists[] = {
#include "c11_lists.inc"
};
static constexpr u64 nlists = sizeof lists / sizeof *lists;
MC_SWEEP(macro_lists, nlists, nlists, 16)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); auto& c = lists[i]; nontrivial(c.n > 1 || strpbrk(c.name[0], "([{\"'") ? 1 : 0);
        records.clear(); printed.clear(); hits = 0;
        std::vector<std::pair<string, string>> kv{ { "$", "note" } };
        for (int k = 0; k < c.n; ++k) kv.push_back({ c.name[k], c.text[k] });
        trace("%s", line(3, kv).c_str());
        c.run(); expect(3, kv, c.hits);
    }
}
MC_SWEEP(levels, 1, 1, 1)
{
    (void)lo; (void)hi; at(0); records.clear(); printed.clear(); hits = 0; nontrivial();
#define L(NAME, N) CE_LOG(NAME, hit()); expect(N, { { "$", #NAME }, { "hit()", "7" } }, 1); CE_LOG(NAME); expect(N, { { "$", #NAME } }, 0); CE_LOG_MSG(NAME, "value ", hit(), ' ', true); expect(N, { { "$", #NAME }, { "$msg", "value 7 #<T>" } }, 1); CE_LOG_MSG(NAME, "x"); expect(N, { { "$", #NAME }, { "$msg", "x" } }, 0);
    L(fatal, 0) L(error, 1) L(warn, 2) L(note, 3) L(info, 4) L(debug, 5) L(spam, 6) L(more, 7)
    // spacing and values
    CE_LOG( info ,   a  ,  f( 1,2 )  , "  s  "  ); expect(4, { { "$", "info" }, { "a", "5" }, { "f( 1,2 )", "3" }, { "\"  s  \"", "  s  " } }, 0);
    CE_LOG(warn, a, b, a + b, hit(), hit(), 'c', 2.5, -1, true, nullptr, 1u, "t"); expect(2, { { "$", "warn" }, { "a", "5" }, { "b", "6" }, { "a + b", "11" }, { "hit()", "7" }, { "hit()", "7" }, { "'c'", "c" }, { "2.5", "2.5" }, { "-1", "-1" }, { "true", "#<T>" }, { "nullptr", "#<nil>" }, { "1u", "1" }, { "\"t\"", "t" } }, 2);
    int été = 8;
    CE_LOG(info, 1'000, a, 0x1'f, 'b', 1'0.5, u8'c'); expect(4, { { "$", "info" }, { "1'000", "1000" }, { "a", "5" }, { "0x1'f", "31" }, { "'b'", "b" }, { "1'0.5", "10.5" }, { "u8'c'", "c" } }, 0);
    CE_LOG(info, été, "été", a + été); expect(4, { { "$", "info" }, { "été", "8" }, { "\"été\"", "été" }, { "a + été", "13" } }, 0);
    char const full[3] = { 'a', 'b', 'c' }; CE_LOG(info, full); expect(4, { { "$", "info" }, { "full", "abc" } }, 0);
    CE_LOG(info, full, a); expect(4, { { "$", "info" }, { "full", "abc" }, { "a", "5" } }, 0);
    // a statement like any other
    for (int i = 0; i < 2; ++i) if (i) CE_LOG(spam, i); else CE_LOG(debug, i, hit());
#ifdef HOOK
    MC_CHECK(records.size() == 2 && records[0].level == 5 && records[1].level == 6 && hits == 1, "records of an if statement");
#else
    MC_CHECK(printed == line(5, { { "$", "debug" }, { "i", "0" }, { "hit()", "7" } }) + line(6, { { "$", "spam" }, { "i", "1" } }) && hits == 1, "records of an if statement: %s", printed.c_str());
#endif
}

// ---- the name splitter on every text
static bool split(string const& s, std::vector<string>& out)
{
    // well formed lists: balanced brackets, closed quotes, no empty argument
    out.clear(); string cur, st; char token = 0;
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || (c & 0x80); };
    auto push = [&] { size_t i = 0, j = cur.size(); while (i < j && cur[i] == ' ') ++i; while (j > i && cur[j - 1] == ' ') --j; out.push_back(cur.substr(i, j - i)); cur.clear(); return i < j; };
    for (size_t i = 0; i < s.size(); ++i)
    {
        char c = s[i];
        // inside a number a ' with a digit or letter behind it separates
        if (c == '\'' && isdigit((unsigned char)token) && i + 1 < s.size() && word(s[i + 1])) { cur += c; continue; }
        token = !word(c) ? 0 : token ? token : c;
        if (c == '"' || c == '\'')
        {
            size_t k = i + 1; while (k < s.size() && s[k] != c) k += s[k] == '\\' ? 2 : 1;
            if (k >= s.size()) return false;
            if (c == '\'' && k == i + 1) return false;
            cur.append(s, i, k - i + 1); i = k; continue;
        }
        if (c == '\\') return false;
        if (c == '(' || c == '[' || c == '{') st += c == '(' ? ')' : c == '[' ? ']' : '}';
        else if (c == ')' || c == ']' || c == '}') { if (st.empty() || st.back() != c) return false; st.pop_back(); }
        else if (c == ',' && st.empty()) { if (!push()) return false; continue; }
        cur += c;
    }
    if (!st.empty()) return false;
    return push();
}
template<size_t COUNT> static void names_check(string const& text, std::vector<string> const& want)
{
    ce::names<48, COUNT> n(text.c_str());
    for (size_t i = 0; i < COUNT; ++i) MC_CHECK(n.data[i] && want[i] == n.data[i], "name %zu of <%s> is <%s> expected <%s>", i, text.c_str(), n.data[i] ? n.data[i] : "(null)", want[i].c_str());
    for (size_t i = 0; i < COUNT; ++i) MC_CHECK(n.data[i] >= n.text && n.data[i] + want[i].size() < n.text + 48, "name %zu of <%s> is outside the names", i, text.c_str());
}
static void splitter(u64 lo, u64 hi, int len, string const& alpha = "a ,()[]{}\"'\\b")
{
    std::vector<string> w;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        string s; u64 r = i; for (int k = 0; k < len; ++k) s += alpha[r % alpha.size()], r /= alpha.size();
        if (!split(s, w)) continue;
        step(); if (w.size() > 1 || s.find_first_of("([{\"'") != string::npos) nontrivial();
        w.insert(w.begin(), "$");
        string t = "$," + s;
        switch (w.size()) { case 2: names_check<2>(t, w); break; case 3: names_check<3>(t, w); break; case 4: names_check<4>(t, w); break; case 5: names_check<5>(t, w); break; default: fail("list %s", s.c_str()); }
        if (i % 4001 == 7 && want_sample()) sample("<%s> has %zu names", s.c_str(), w.size() - 1);
    }
}
#ifndef HOOK
#define S(N, P, T) MC_SWEEP(splitter##N, P, T, 65536) { splitter(lo, hi, N); }
S(1, 13, 13) S(2, 169, 169) S(3, 2197, 2197) S(4, 28561, 28561) S(5, 371293, 371293) S(6, 4826809, 4826809) S(7, 62748517, 62748517) S(8, 0, 815730721)
// digits and their separators, characters outside ascii
#define W(N, P, T) MC_SWEEP(numbers##N, P, T, 65536) { splitter(lo, hi, N, "a1', (\"\xc3)"); }
W(2, 81, 81) W(3, 729, 729) W(4, 6561, 6561) W(5, 59049, 59049) W(6, 531441, 531441) W(7, 4782969, 4782969) W(8, 0, 43046721)
#endif

// ---- long arguments, many arguments
static string long_arg(int kind, size_t n)
{
    auto rep = [](string const& u, size_t k) { string r; while (k--) r += u; return r; };
    switch (kind)
    {
    case 0: return "x" + string(n, 'y');
    case 1: return "\"" + rep("a, (b\\\", ", n / 8) + "\"";
    case 2: return rep("(a,[", n / 8 + 1) + "c" + rep("])", n / 8 + 1);
    case 3: return "f(" + rep("1'000, ", n / 7) + "2)";
    case 4: return "a" + string(n, ' ') + "+" + string(n, ' ') + "b";
    }
    return "'" + rep("\\,", n / 2 + 1) + "'";
}
template<size_t COUNT> static void long_list(string const& text, std::vector<string> const& want)
{
    static size_t const room = 1 << 19;
    if (text.size() >= room) fail("the list is too long for the check");
    auto* n = new ce::names<room, COUNT>(text.c_str());
    for (size_t i = 0; i < COUNT; ++i) MC_CHECK(n->data[i] >= n->text && n->data[i] + want[i].size() < n->text + room && want[i] == n->data[i], "name %zu of %zu, of a list of %zu characters, is <%.60s> expected <%.60s> (%zu)", i, COUNT, text.size(), n->data[i], want[i].c_str(), want[i].size());
    delete n; step();
}
#ifndef HOOK
static size_t const long_sizes[] = { 1, 16, 100, 126, 127, 128, 254, 255, 256, 257, 1024, 32768, 65534, 65535, 65536, 65537, 100000 };
MC_SWEEP(long_lists, 17 * 6 * 5 * 3, 17 * 6 * 5 * 3, 4)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); size_t len = long_sizes[i % 17]; int kind = int(i / 17 % 6), at_pos = int(i / 17 / 6 / 5); size_t count = std::vector<size_t>{ 2, 3, 20, 100, 300 }[i / 17 / 6 % 5];
        std::vector<string> w{ "$" }; for (size_t k = 1; k < count; ++k) w.push_back(k == (at_pos == 0 ? 1 : at_pos == 1 ? count - 1 : count / 2) ? long_arg(kind, len) : "n" + std::to_string(k));
        string t; for (size_t k = 0; k < count; ++k) t += (k ? (k % 3 ? ", " : " ,") : "") + w[k];
        nontrivial();
        switch (count) { case 2: long_list<2>(t, w); break; case 3: long_list<3>(t, w); break; case 20: long_list<20>(t, w); break; case 100: long_list<100>(t, w); break; case 300: long_list<300>(t, w); break; }
    }
}
#endif
MC_SWEEP(long_records, 1, 1, 1)
{
    (void)lo; (void)hi; at(0); records.clear(); printed.clear(); hits = 0; nontrivial();
    std::vector<std::pair<string, string>> kv{ { "$", "warn" } }; for (int i = 0; i < 40; ++i) kv.push_back({ "hit()", "7" }); kv.push_back({ "a", "5" });
    CE_LOG(warn, hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), hit(), a); expect(2, kv, 40);
#define BIG_EXPRESSION f(1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10 + 11 + 12 + 13 + 14 + 15 + 16 + 17 + 18 + 19 + 20 + 21 + 22 + 23 + 24 + 25 + 26 + 27 + 28 + 29 + 30 + 31 + 32 + 33 + 34 + 35 + 36 + 37 + 38 + 39 + 40 + 41 + 42 + 43 + 44 + 45 + 46 + 47 + 48 + 49 + 50 + 51 + 52 + 53 + 54 + 55 + 56 + 57 + 58 + 59 + 60, hit())
#define LOG_EXPANDED(...) CE_LOG(__VA_ARGS__)
#define TEXT_OF(...) #__VA_ARGS__
#define TEXT(...) TEXT_OF(__VA_ARGS__)
    LOG_EXPANDED(info, BIG_EXPRESSION, BIG_EXPRESSION, b); expect(4, { { "$", "info" }, { TEXT(BIG_EXPRESSION), "1837" }, { TEXT(BIG_EXPRESSION), "1837" }, { "b", "6" } }, 2);
    LOG_EXPANDED(info, a, BIG_EXPRESSION); expect(4, { { "$", "info" }, { "a", "5" }, { TEXT(BIG_EXPRESSION), "1837" } }, 1);
    static char text[1025]; memset(text, 'q', 1024); char const* t = text;
    CE_LOG(info, t, a); expect(4, { { "$", "info" }, { "t", text }, { "a", "5" } }, 0);
}

// ---- the default sink alone
MC_DFS(sink)
{
    static const int ext[] = { INT_MIN, INT_MIN + 1, -1000, 1000, INT_MAX - 1, INT_MAX };
    static const char* txt[] = { "", "k", "a \"quoted\" {text}", nullptr };
    int l = choose(601 + 6), level = l < 601 ? l - 300 : ext[l - 601], n = choose(4); step();
    char const* argv[4][2]{}; std::vector<std::pair<string, string>> kv;
    for (int i = 0; i < n; ++i) { argv[i][0] = txt[i]; argv[i][1] = txt[(i + (level & 3)) & 3]; kv.push_back({ argv[i][0] ? argv[i][0] : "", argv[i][1] ? argv[i][1] : "" }); }
    printed.clear(); nontrivial();
    ce::os::log(level, n, argv);
    hasher h; h.s(printed.c_str()); outcome(h); state(h);
    MC_CHECK(printed == line(level, kv), "level %d with %d entries printed <%s> expected <%s>", level, n, printed.c_str(), line(level, kv).c_str());
}

MC_DFS(long_sink)
{
    static const int counts[] = { 1, 4, 30, 127, 128, 129, 255, 256, 257, 1000 }; static const size_t lens[] = { 0, 1, 100, 255, 256, 1023, 1024, 1025, 4096, 70000 };
    int n = counts[choose(10)]; size_t len = lens[choose(10)]; int which = choose(3), level = choose(8); if (len > 5000 && n > 30) n = 30; step();
    string big(len, 'v'); std::vector<std::pair<string, string>> kv; for (int i = 0; i < n; ++i) kv.push_back({ which == 1 ? big : "k" + std::to_string(i), which == 0 && i < n - 1 ? "w" : big });
    std::vector<char const*> argv(size_t(n) * 2 + 2); for (size_t i = 0; i < size_t(n); ++i) argv[2 * i] = kv[i].first.c_str(), argv[2 * i + 1] = kv[i].second.c_str();
    printed.clear(); nontrivial();
    ce::os::log(level, n, reinterpret_cast<char const* (*)[2]>(argv.data()));
    hasher h; h.s(printed.c_str()); outcome(h); state(h);
    MC_CHECK(printed == line(level, kv), "level %d with %d entries of %zu characters printed another line", level, n, len);
}
