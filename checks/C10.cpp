//@ level: exploration
//@ technique: bounded exhaustive enumeration of argument lists (every list up to length 3 over an alphabet of typed boundary values) through the real to_text and as_string templates, against expected texts, in exact-size memory
//@ note: The alphabet has every category of argument the text functions distinguish, each at its longest and its degenerate values. Lists longer than three arguments are covered for selected combinations only.
//@ cxx: -O0 -fsanitize=address
//@ repo: to_text.cpp
//@ rule: a list with at least two arguments, or a value whose text has at least two characters
//@ bounds: every list of length 1 over 32 kinds of argument, 2 over 17 kinds, 3 over 8 kinds, all of their 1..4 values each; text lengths 0..1023, 1024, 1025, 3000 around the 1024 limit; character arrays of 1..40 with a terminator at every place or none; texts and character arrays of up to 65537 (texts to 2^24) characters, arrays of up to 100000 numbers, lists of 50 and 250 values
//@ assume: as_string is an exact-size heap object watched by AddressSanitizer; to_text writes into a guarded buffer
#include "mc.h"
#include "ce/ce.h"
#include <cstring>
#include <climits>
#include <cmath>
#include <utility>
#include <vector>
using namespace mc;
using std::string;

enum plain_e { pe_a, pe_b = 77 };
enum class e8 : unsigned char { a, b = 255 };
enum class e8s : signed char { a = -128, b = 5 };
enum class e64 : long long { a = LLONG_MIN, b = LLONG_MAX };
enum class eu64 : unsigned long long { a, b = ~0ull };
struct unknown { char pad[43]; };
struct base_only { };

static string num(long long v) { return std::to_string(v); }
static string unum(unsigned long long v) { return std::to_string(v); }

static string longtext[5];
static unknown an_unknown[3]; static base_only a_base; static int an_int = 5; static double a_double;
static char writable[8] = "writ";
static void setup()
{
    if (!longtext[0].empty()) return;
    longtext[0] = string(1023, 'a'); longtext[1] = string(1024, 'b'); longtext[2] = string(1025, 'c'); longtext[3] = string(3000, 'd'); longtext[4] = "z";
}

// K<i>: kind i of argument: type T, n values, get(i), text(i, in as_string)
template<int I> struct K;
#define UNPACK(...) __VA_ARGS__
#define KIND(I, TYPE, N, GET, ...) template<> struct K<I> { using T = TYPE; static constexpr int n = N; static T get(int i) { (void)i; UNPACK GET } static string text(int i, bool s) { (void)i; (void)s; auto v = get(i); (void)v; __VA_ARGS__ } };
KIND(0, int, 4, ({ constexpr int v[] = { 0, INT_MIN, INT_MAX, -7 }; return v[i]; }), return num(v);)
KIND(1, char, 4, (return "aZ\0\xff"[i];), return string(1, v);)
KIND(2, char const*, 4, ({ static char const* v[] = { "", "x", "text, \"with\" (all) #<ptr", nullptr }; return v[i]; }), return v ? string(v) : "#<nil>";)
KIND(3, bool, 2, (return i;), return v ? "#<T>" : "#<F>";)
KIND(4, unsigned long long, 2, (return i ? ~0ull : 0;), return unum(v);)
// character arrays need references; these are handled by as_arg
struct arr3 { }; struct arr1 { }; struct arr6 { };
static char const full3[3] = { 'a', 'b', 'c' }; static char const term3[3] = { 'q', 0, 'r' }; static char const zero3[3] = { 0, 'x', 'y' };
static char const one1[1] = { 'o' }; static char const zero1[1] = { 0 };
static char const full6[6] = { '1', '2', '3', '4', '5', '6' }, term6[6] = "hello";
using R3 = char const (&)[3]; using R1 = char const (&)[1]; using R6 = char const (&)[6];
KIND(5, R3, 3, (return i == 0 ? full3 : i == 1 ? term3 : zero3;), { R3 r = get(i); return string(r, strnlen(r, 3)); })
KIND(6, R1, 2, (return i ? one1 : zero1;), { R1 r = get(i); return string(r, strnlen(r, 1)); })
KIND(7, int const*, 3, (return i == 0 ? nullptr : i == 1 ? &an_int : (int const*)~0ull;), return v ? "#<ptr " + unum((unsigned long long)(v)) + ">" : "#<nil>";)
KIND(8, e64, 2, (return i ? e64::a : e64::b;), return "#<enum " + num((long long)v) + ">";)
KIND(23, long long, 2, (return i ? LLONG_MIN : -1;), return num(v);)
KIND(10, unsigned char, 2, (return (unsigned char)(i ? 255 : 7);), return num(v);)
// ---- the first eight are used in lists of three, the first seventeen in lists of two
KIND(17, short, 3, (return short(i == 0 ? SHRT_MIN : i == 1 ? SHRT_MAX : 0);), return num(v);)
KIND(30, unsigned short, 2, (return (unsigned short)(i ? 65535 : 9);), return num(v);)
KIND(13, signed char, 3, (return (signed char)(i == 0 ? -128 : i == 1 ? 127 : 0);), return num(v);)
KIND(27, unsigned, 2, (return i ? ~0u : 1;), return num(v);)
KIND(15, long, 3, (return i == 0 ? LONG_MIN : i == 1 ? LONG_MAX : 0;), return num(v);)
KIND(16, unsigned long, 2, (return i ? ~0ul : 10;), return unum(v);)
KIND(11, std::nullptr_t, 1, (return nullptr;), return "#<nil>";)
KIND(18, void const*, 5, (return i == 1 ? (void const*)&an_int : i == 2 ? (void const*)~0ul : i == 3 ? (void const*)1ul : i == 4 ? (void const*)0x8000000000000001ul : nullptr;), return v ? "#<ptr " + unum((unsigned long long)(v)) + ">" : "#<nil>";)
KIND(19, plain_e, 2, (return i ? pe_b : pe_a;), return "#<enum " + num(v) + ">";)
KIND(20, e8, 2, (return i ? e8::b : e8::a;), return "#<enum " + num((int)v) + ">";)
KIND(21, e8s, 2, (return i ? e8s::b : e8s::a;), return "#<enum " + num((int)v) + ">";)
KIND(22, eu64, 2, (return i ? eu64::b : eu64::a;), return "#<enum " + unum((unsigned long long)v) + ">";)
using V2 = ce::vec<2, int>; using V3 = ce::vec<3, unsigned char>; using V4 = ce::vec<4, long long>; using V1 = ce::vec<1, bool>;
KIND(9, V2, 2, (return i ? V2{ INT_MIN, INT_MIN } : V2{ 1, 2 };), return "[" + num(v.x) + ", " + num(v.y) + "]";)
KIND(24, V3, 1, (return (V3{ 255, 0, 3 });), return "[255, 0, 3]";)
KIND(25, V4, 1, (return (V4{ LLONG_MIN, LLONG_MIN, LLONG_MAX, 0 });), return "[" + num(LLONG_MIN) + ", " + num(LLONG_MIN) + ", " + num(LLONG_MAX) + ", 0]";)
KIND(26, V1, 2, (return V1{ i == 1 };), return i ? "[#<T>]" : "[#<F>]";)
KIND(14, char*, 2, (return i ? writable : nullptr;), return v ? "writ" : "#<nil>";)
KIND(28, R6, 2, (return i ? full6 : term6;), { R6 r = get(i); return string(r, strnlen(r, 6)); })
KIND(29, double, 2, (return i ? -2.5 : 1e300;), return i ? "-2.5" : "1e+300";)
KIND(12, unknown const&, 3, (return an_unknown[i];), return s ? "#<ref *>" : "#<ref " + unum((unsigned long long)&an_unknown[i]) + ">";)
KIND(31, char const* const*, 1, ({ static char const* p = "x"; return &p; }), return "#<ptr " + unum((unsigned long long)(v)) + ">";)
constexpr int core = 8, pairs = 17, all = 32;

// number of characters of got that are the wanted text, npos when they are not
static size_t same(string const& got, string const& want)
{
    // '*' in an expected "#<ref *>" stands for an address
    size_t i = 0, j = 0;
    while (j < want.size())
    {
        if (want.compare(j, 8, "#<ref *>") == 0)
        {
            if (got.compare(i, 6, "#<ref ")) return string::npos;
            i += 6; size_t b = i; while (i < got.size() && isdigit((unsigned char)got[i])) ++i;
            if (i == b || i >= got.size() || got[i] != '>') return string::npos;
            ++i; j += 8; continue;
        }
        if (i >= got.size() || got[i] != want[j]) return string::npos;
        ++i; ++j;
    }
    return i;
}
static string visible(string const& s) { string r; for (char c : s) { if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } } return r.substr(0, 300); }

// what the real functions gave; only filling it in is instantiated per argument list
static char buf[12000];
static struct { size_t n; char* end; string as; bool passed; char const* pass; } res;
static void give(char const* as, size_t room) { res.as.assign(as, room); res.passed = false; }
template<class...Ts> __attribute__((noinline)) static void call(Ts const&...ts)
{
    res.end = ce::to_text(buf + 64, ts...);
    auto* s = new ce::as_string{ ts... };
    using A = decltype(s->as);
    if constexpr (std::is_array_v<std::remove_reference_t<A>>) give(s->as, sizeof s->as);
    else res.passed = true, res.pass = s->as;
    delete s;
}
static void before(string const& want_text, string const& want_string, size_t args)
{
    step();
    if (args > 1 || want_text.size() > 1) nontrivial();
    hasher h; h.b(want_string.data(), want_string.size()); outcome(h); state(h);
    trace("text should be %s", visible(want_text).c_str());
    memset(buf, 0x7e, want_text.size() + 128);
}
static void after(string const& want_text, string const& want_string)
{
    size_t n = want_text.size(); char* e = res.end;
    MC_CHECK(e >= buf + 64 && e <= buf + 64 + n + 60, "to_text returns an end %td characters in, expected %zu (%s)", e - buf - 64, n, visible(want_text).c_str());
    MC_CHECK(string(buf + 64, e) == want_text, "to_text gives %s expected %s", visible(string(buf + 64, e)).c_str(), visible(want_text).c_str());
    for (int i = 0; i < 64; ++i) MC_CHECK(buf[i] == 0x7e && buf[64 + n + size_t(i)] == 0x7e, "to_text of %s wrote outside the text", visible(want_text).c_str());
    if (res.passed) // a single text is handed on as it is
    {
        if (res.pass) MC_CHECK(string(res.pass, strnlen(res.pass, n + 1)) == want_text, "as_string of one text is %s expected %s", visible(string(res.pass, strnlen(res.pass, n + 1))).c_str(), visible(want_text).c_str());
        return;
    }
    size_t room = res.as.size();
    bool ref = want_string.find("#<ref *>") != string::npos;
    MC_CHECK(want_string.size() < room || ref, "as_string has %zu characters for %s", room, visible(want_string).c_str());
    size_t m = same(res.as, want_string);
    MC_CHECK(m != string::npos, "as_string is %s expected %s", visible(string(res.as.c_str())).c_str(), visible(want_string).c_str());
    MC_CHECK(m < room && res.as[m] == 0, "as_string is not terminated after %s", visible(want_string).c_str());
}
template<class...Ts> static void check(string const& want_text, string const& want_string, Ts const&...ts)
{
    before(want_text, want_string, sizeof...(Ts)); call(ts...); after(want_text, want_string);
}
// ---- tables of the instantiated calls
struct kind { int n; string (*text)(int, bool); };
template<int...I> static kind const* kind_table(std::integer_sequence<int, I...>) { static const kind t[] = { { K<I>::n, K<I>::text }... }; return t; }
static kind const* kinds = kind_table(std::make_integer_sequence<int, all>{});
using fn = void (*)(int, int, int);
template<int A> static void call1(int i, int, int) { call(K<A>::get(i)); }
template<int AB> static void call2(int i, int j, int) { call(K<AB / pairs>::get(i), K<AB % pairs>::get(j)); }
template<int ABC> static void call3(int i, int j, int k) { call(K<ABC / core / core>::get(i), K<ABC / core % core>::get(j), K<ABC % core>::get(k)); }
template<int...I> static fn const* table1(std::integer_sequence<int, I...>) { static const fn t[] = { call1<I>... }; return t; }
template<int...I> static fn const* table2(std::integer_sequence<int, I...>) { static const fn t[] = { call2<I>... }; return t; }
template<int...I> static fn const* table3(std::integer_sequence<int, I...>) { static const fn t[] = { call3<I>... }; return t; }

MC_DFS(one)
{
    setup();
    int a = choose(all), i = choose(kinds[a].n); auto t = kinds[a].text(i, false), s = kinds[a].text(i, true);
    before(t, s, 1); table1(std::make_integer_sequence<int, all>{})[a](i, 0, 0); after(t, s);
}
MC_DFS(two)
{
    setup();
    int a = choose(pairs), b = choose(pairs), i = choose(kinds[a].n), j = choose(kinds[b].n);
    auto t = kinds[a].text(i, false) + kinds[b].text(j, false), s = kinds[a].text(i, true) + kinds[b].text(j, true);
    if (want_sample()) sample("%s", visible(s).c_str());
    before(t, s, 2); table2(std::make_integer_sequence<int, pairs * pairs>{})[a * pairs + b](i, j, 0); after(t, s);
}
MC_DFS(three)
{
    setup();
    int a = choose(core), b = choose(core), c = choose(core), i = choose(kinds[a].n), j = choose(kinds[b].n), k = choose(kinds[c].n);
    auto t = kinds[a].text(i, false) + kinds[b].text(j, false) + kinds[c].text(k, false), s = kinds[a].text(i, true) + kinds[b].text(j, true) + kinds[c].text(k, true);
    before(t, s, 3); table3(std::make_integer_sequence<int, core * core * core>{})[(a * core + b) * core + c](i, j, k); after(t, s);
}
MC_DFS(longer_lists)
{
    setup();
    int m = choose(4); step();
    if (m == 0) check(num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN), num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN) + num(INT_MIN), INT_MIN, INT_MIN, INT_MIN, INT_MIN, INT_MIN, INT_MIN);
    else if (m == 1) check("a,255,-128,-32768,65535,", "a,255,-128,-32768,65535,", 'a', ',', (unsigned char)255, ',', (signed char)-128, ',', short(-32768), ',', (unsigned short)65535, ',');
    else if (m == 2) check("abcab-9223372036854775808", "abcab-9223372036854775808", full3, "ab", LLONG_MIN);
    else check("", "", "", "", "", "", "");
}
// the 1024 limit of text arguments
static string cut(string const& s) { return s.substr(0, 1024); }
MC_SWEEP(text_lengths, 1100, 3100, 64)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); string s(i, 'k'); for (size_t j = 0; j < s.size(); ++j) s[j] = char('a' + j % 26);
        char* p = (char*)malloc(i + 1); memcpy(p, s.c_str(), i + 1);
        char const* q = p;
        check(s + "!", cut(s) + "!", q, '!');
        check("!" + s, "!" + cut(s), '!', q);
        check(s + s, cut(s) + cut(s), q, q);
        check(s, cut(s), p);
        check(s, s, q);
        check(num(INT_MIN) + s + num(LLONG_MIN), num(INT_MIN) + cut(s) + num(LLONG_MIN), INT_MIN, q, LLONG_MIN);
        free(p);
    }
}
// character arrays of every size with the terminator at every place or nowhere
template<size_t N> static void arrays()
{
    struct box { char a[N]; };
    for (size_t t = 0; t <= N; ++t)
    {
        box* b = new box; for (size_t i = 0; i < N; ++i) b->a[i] = char('A' + i % 26); if (t < N) b->a[t] = 0;
        string w(b->a, t); char const (&r)[N] = b->a;
        check(w, w, r); check("x" + w, "x" + w, 'x', r); check(w + w, w + w, r, r); check(w + "#<T>", w + "#<T>", r, true);
        delete b;
    }
}
template<size_t...Is> static void arrays_of(u64 n, std::index_sequence<Is...>) { (void)((n == Is ? (arrays<Is + 1>(), true) : false) || ...); }
MC_SWEEP(char_arrays, 40, 40, 2) { for (u64 i = lo; i < hi; ++i) { at(i); arrays_of(i, std::make_index_sequence<40>{}); } }

// arrays of numbers, only through to_text
template<class T, size_t N> static void list(std::vector<T> vals)
{
    T a[N]; size_t idx[N]; 
    for (auto& i : idx) i = size_t(choose(int(vals.size())));
    string w = "["; for (size_t i = 0; i < N; ++i) { a[i] = vals[idx[i]]; if (i) w += ", "; if constexpr (std::is_same_v<T, bool>) w += a[i] ? "#<T>" : "#<F>"; else if constexpr (std::is_same_v<T, char const*>) w += a[i] ? a[i] : "#<nil>"; else w += std::to_string(a[i]); } w += "]";
    step(); nontrivial(); trace("%s", w.c_str()); hasher h; h.s(w.c_str()); outcome(h); state(h);
    memset(buf, 0x7e, sizeof buf);
    char* e = ce::to_text(buf + 64, a); string got(buf + 64, e > buf && e < buf + 1900 ? e : buf + 64);
    MC_CHECK(got == w, "to_text of an array gives %s expected %s", got.c_str(), w.c_str());
    MC_CHECK(buf[63] == 0x7e && *e == 0x7e, "to_text wrote outside %s", w.c_str());
    e = ce::to_text(buf + 64, a, '/', a); got = string(buf + 64, e > buf && e < buf + 1900 ? e : buf + 64);
    MC_CHECK(got == w + "/" + w, "to_text of two arrays gives %s", got.c_str());
}
MC_DFS(lists)
{
    switch (choose(8))
    {
    case 0: list<int, 1>({ 0, INT_MIN, INT_MAX, 10 }); break;
    case 1: list<int, 2>({ 0, INT_MIN, INT_MAX, 10 }); break;
    case 2: list<int, 3>({ 0, INT_MIN, INT_MAX, 10 }); break;
    case 3: list<unsigned char, 4>({ 0, 9, 255 }); break;
    case 4: list<long long, 5>({ 0, LLONG_MIN, LLONG_MAX }); break;
    case 5: list<bool, 4>({ false, true }); break;
    case 6: list<char const*, 3>({ "", "abc", nullptr, "," }); break;
    default: list<unsigned short, 8>({ 0, 65535 }); break;
    }
}

// long texts, arrays and argument lists
static std::vector<char> far_buf;
static char* far_begin(size_t need) { far_buf.assign(need + 128, char(0x7e)); return far_buf.data() + 64; }
static void far_end(char* e, string const& want, char const* what, size_t n)
{
    step(); nontrivial(); hasher h; h.s(what); h.u(n); state(h); outcome(h);
    char* b = far_buf.data() + 64; size_t len = want.size(), room = far_buf.size() - 64;
    MC_CHECK(e >= b && size_t(e - b) == len, "to_text of %s of %zu returns an end %td characters in, expected %zu", what, n, e - b, len);
    MC_CHECK(memcmp(b, want.data(), len) == 0, "to_text of %s of %zu gives another text", what, n);
    for (size_t i = 0; i < 64; ++i) MC_CHECK(far_buf[i] == 0x7e, "to_text of %s of %zu wrote before its text", what, n);
    for (size_t i = len; i < room; ++i) MC_CHECK(b[i] == 0x7e, "to_text of %s of %zu wrote past its text", what, n);
}
static string letters(size_t n) { string s(n, 'k'); for (size_t j = 0; j < n; ++j) s[j] = char('a' + j % 23); return s; }
static void far_text(size_t n)
{
    string s = letters(n); char const* p = s.c_str();
    far_end(ce::to_text(far_begin(n), p), s, "a text", n);
    far_end(ce::to_text(far_begin(2 * n + 20), INT_MIN, p, ',', p, true), "-2147483648" + s + "," + s + "#<T>", "values with texts", n);
}
template<size_t N> static void far_chars()
{
    static char a[N]; string s = letters(N);
    for (size_t end : { size_t(0), size_t(1), N / 2, N - 1, N })
    {
        memcpy(a, s.data(), N); if (end < N) a[end] = 0; string w = s.substr(0, end);
        far_end(ce::to_text(far_begin(N), a), w, "a character array", N);
        far_end(ce::to_text(far_begin(2 * N + 20), a, '+', a, -1), w + "+" + w + "-1", "two character arrays", N);
        auto* o = new ce::as_string{ a, '!', a }; string got(o->as, strnlen(o->as, sizeof o->as)); delete o; step();
        MC_CHECK(got == w + "!" + w, "as_string of two character arrays of %zu with %zu characters", N, end);
    }
}
template<class T, size_t N> static void far_values()
{
    static T a[N]; string w = "[";
    for (size_t i = 0; i < N; ++i) { a[i] = T(i * 2654435761u >> (i % 3)); w += (i ? ", " : "") + std::to_string(a[i]); }
    w += "]"; far_end(ce::to_text(far_begin(w.size()), a), w, "an array", N);
    far_end(ce::to_text(far_begin(w.size() + 3), 'x', a, 'y'), "x" + w + "y", "values with an array", N);
}
template<size_t...Is> static void far_lists(std::index_sequence<Is...>)
{
    static const string one = letters(1024), more = letters(1500); char const* p = more.c_str(); char const* q = nullptr;
    string w; for (size_t i = 0; i < sizeof...(Is); ++i) w += std::to_string(int(i) - 50) + ";";
    far_end(ce::to_text(far_begin(w.size()), ce::as_string{ int(Is) - 50, ';' }.as...), w, "short texts", sizeof...(Is));
    auto* o = new ce::as_string{ (int(Is) - 50)..., ((void)Is, p)..., ((void)Is, q)..., ((void)Is, Is % 2 == 0)..., ((void)Is, LLONG_MIN)... };
    w.clear(); for (size_t i = 0; i < sizeof...(Is); ++i) w += std::to_string(int(i) - 50);
    for (size_t i = 0; i < sizeof...(Is); ++i) w += one;
    for (size_t i = 0; i < sizeof...(Is); ++i) w += "#<nil>";
    for (size_t i = 0; i < sizeof...(Is); ++i) w += i % 2 == 0 ? "#<T>" : "#<F>";
    for (size_t i = 0; i < sizeof...(Is); ++i) w += std::to_string(LLONG_MIN);
    string got(o->as, strnlen(o->as, sizeof o->as)); delete o; step();
    MC_CHECK(got == w, "as_string of %zu values has %zu characters, expected %zu", 5 * sizeof...(Is), got.size(), w.size());
}
static const size_t far_sizes[] = { 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1 << 20, 1 << 24 };
MC_SWEEP(far, 11 + 15, 11 + 15, 1)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); if (i < 11) { far_text(far_sizes[i]); continue; }
        switch (i - 11)
        {
        case 0: far_chars<127>(); far_chars<128>(); far_chars<129>(); break; case 1: far_chars<255>(); far_chars<256>(); far_chars<257>(); break; case 2: far_chars<1023>(); far_chars<1024>(); far_chars<1025>(); break;
        case 3: far_chars<32768>(); break; case 4: far_chars<65535>(); break; case 5: far_chars<65536>(); break; case 6: far_chars<65537>(); break;
        case 7: far_values<int, 127>(); far_values<int, 128>(); break; case 8: far_values<int, 255>(); far_values<int, 256>(); far_values<short, 257>(); break; case 9: far_values<unsigned, 65535>(); break; case 10: far_values<int, 65536>(); break;
        case 11: far_values<long long, 65537>(); break; case 12: far_values<unsigned char, 100000>(); break; case 13: far_lists(std::make_index_sequence<10>{}); break; case 14: far_lists(std::make_index_sequence<50>{}); break;
        }
    }
}
