//@ level: exploration
//@ technique: exhaustive enumeration: every size, count and chain of span operations up to a bound and around powers of two on the real span, every sequence length up to a bound, every pair and triple of a family of types for the selection and type traits, every member of aggregates of every combination of five member types; against independent definitions and the standard library's traits
//@ note: the compile-time parts are evaluated by the compiler for every member of the enumerated family and compared at run time; lengths and type lists beyond the bounds are not covered.
//@ cxx: -O1 -ftemplate-depth=4096
//@ config plain: -O0 -g0
//@ config asan: -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ rule: the span stays non-empty, the sequence or list is not empty
//@ bounds: spans of 0..64 elements of 5 element types with n up to 80 and the largest counts, all chains of 4 operations on spans up to 6, sizes around every power of two up to 2^40; sequences of every length 0..400 and around powers of two to 2048, in 5 element types; all 1..4 member aggregates over 5 member types (780 instances); all 2401 colors of 7 channel values in 4 types; all lists of up to 4 of 5 types for the traits, 16 x 8 qualified types for remove_*
//@ assume: aggregate members are not themselves braces-elidable arrays
#include "mc.h"
#include "ce/ce.h"
#include <type_traits>
#include <utility>
#include <memory>
#include <vector>
#include <string>
#include <sys/mman.h>
using namespace mc;
using ce::size_t;
template<class F> static void each(u64 lo, u64 hi, F f) { for (u64 i = lo; i < hi; ++i) { at(i); f(i); } }

// ---- spans
template<class T> struct model { size_t b, e; };   // half open range of the original
template<class T> static void same(ce::span<T> s, T* base, size_t b, size_t e, size_t lo, size_t hi, char const* what)
{
    MC_CHECK(s.size == e - b, "%s gives %zu elements, expected %zu", what, size_t(s.size), e - b);
    if (s.size) MC_CHECK(s.data == base + b, "%s starts at element %ld, expected %zu", what, long(s.data - base), b);
    else MC_CHECK(s.data >= base + lo && s.data <= base + hi, "%s is an empty span outside the original", what);
    ce::span<T> const& c = s;
    MC_CHECK(s.begin() == s.data && c.begin() == s.data && s.end() == s.data + s.size && c.end() == s.data + s.size, "begin and end of %s", what);
    step();
}
template<class T> static void ops(T* base, size_t size, size_t n)
{
    ce::span<T> s{ size, base };
    char w[96]; snprintf(w, sizeof w, "skip of %zu of %zu elements (of %zu bytes)", n, size, sizeof(T)); same(skip(s, n), base, n < size ? n : size, size, 0, size, w);
    w[0] = 't'; w[1] = 'r'; w[2] = 'i'; w[3] = 'm'; same(trim(s, n), base, 0, n < size ? size - n : 0, 0, size, w);
    MC_CHECK(s.size == size && s.data == base, "skip or trim changed its argument");
    if (n < size) nontrivial();
}
struct three { unsigned char a[3]; };
template<class T> static void all_sizes(u64 i)
{
    size_t size = i % 65; std::unique_ptr<T[]> d(new T[size]());
    for (size_t n = 0; n <= 80; ++n) ops<T>(d.get(), size, n);
    for (int b = 6; b < 64; ++b) for (int k = -1; k <= 1; ++k) { ops<T>(d.get(), size, (size_t(1) << b) + size_t(k)); ops<T>(d.get(), size, size_t(0) - (size_t(1) << b) + size_t(k)); ops<T>(d.get(), size, (size_t(1) << b) + size + size_t(k)); }
    for (size_t n = 0; n < 70; ++n) ops<T>(d.get(), size, ~n);
    size_t k = 0; for (T& x : ce::span<T>{ size, d.get() }) MC_CHECK(&x == &d[k++], "iterating over a span"); MC_CHECK(k == size, "iterating over a span of %zu elements visits %zu", size, k);
}
MC_SWEEP(spans, 65 * 5, 65 * 5, 1)
{
    each(lo, hi, [](u64 i) { switch (i / 65) { case 0: all_sizes<unsigned char>(i); break; case 1: all_sizes<int>(i); break; case 2: all_sizes<double>(i); break; case 3: all_sizes<three>(i); break; default: all_sizes<std::string>(i); } });
}
MC_SWEEP(spans_huge, 41 * 3, 41 * 3, 4)
{
    static unsigned char* base = (unsigned char*)mmap(nullptr, (size_t(1) << 41), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) return;
    each(lo, hi, [](u64 i) { size_t size = (size_t(1) << i / 3) + i % 3 - 1; for (int b = 0; b < 42; ++b) for (int k = -1; k <= 1; ++k) { size_t n = (size_t(1) << b) + size_t(k); ops<unsigned char>(base, size, n); ops<unsigned char>(base, size, size - n); ops<unsigned char const>(base, size, size + n); if (size % 4 == 0) ops<int>((int*)base, size / 4, n); } });
}
MC_SWEEP(chains, 7 * 20736, 7 * 20736, 512)       // 4 operations, each skip or trim by 0..5
{
    each(lo, hi, [](u64 i) { size_t size = i % 7; i /= 7; std::unique_ptr<int[]> d(new int[size]); for (size_t k = 0; k < size; ++k) d[k] = int(k);
        ce::span<int> s{ size, d.get() }; size_t b = 0, e = size; if (size) nontrivial();
        for (int k = 0; k < 4; ++k, i /= 12) { size_t n = i % 6; bool sk = i / 6 % 2; size_t pb = b, pe = e; s = sk ? skip(s, n) : trim(s, n); if (n >= e - b) b = e = size_t(s.data - d.get()); else if (sk) b += n; else e -= n; same(s, d.get(), b, e, pb, pe, "a chain of skips and trims"); } });
}
// ---- typed views; the file mapping of the system is the harness's
static size_t file_size; static unsigned char file_data[512];
namespace ce::os
{
    bool map_span(span<uint8_t const>& v, char const path[]) { v.size = path[0] == 'x' ? 0 : file_size; v.data = path[0] == 'x' ? nullptr : file_data; return path[0] != 'x'; }
    bool map_span(span<uint8_t const>& v, file_t f) { v.size = f.os_handle ? file_size : 0; v.data = f.os_handle ? file_data : nullptr; return f.os_handle != nullptr; }
    void log(int, int, char const* [][2]) { }
    bool error(int, int, char const* [][2]) { return false; }
}
template<class T> static void view()
{
    int h = 0; ce::os::file_t f{ &h }, none{ nullptr };
    ce::span<T const> a = ce::os::map_span<T>("file"), b = ce::os::map_span<T>(f), c = ce::os::map_span<T>("x"), e = ce::os::map_span<T>(none);
    MC_CHECK(a.size == file_size / sizeof(T) && (void const*)a.data == file_data, "a typed view of %zu bytes has %zu elements of %zu bytes", file_size, size_t(a.size), sizeof(T));
    MC_CHECK(b.size == a.size && b.data == a.data, "views of a path and of a file differ");
    MC_CHECK(c.size == 0 && c.data == nullptr && e.size == 0 && e.data == nullptr, "the view of a file that cannot be mapped is not empty");
    MC_CHECK(a.end() == a.begin() + a.size && (unsigned char const*)a.end() <= file_data + file_size, "a typed view ends beyond the bytes"); step();
}
MC_SWEEP(views, 257, 257, 8) { each(lo, hi, [](u64 i) { file_size = i; if (i) nontrivial(); view<unsigned char>(); view<short>(); view<int>(); view<ce::uint64_t>(); view<three>(); view<char[5]>(); view<ce::math::vec3<float>>(); }); }

#ifndef SMALL
// ---- sequences
template<class T, T...Is> static bool sequence_is(ce::items<T, Is...>, size_t n)
{
    if (sizeof...(Is) != n || ce::items<T, Is...>::count != n) return false;
    u64 const v[] = { u64(Is)... }; for (size_t k = 0; k < n; ++k) if (v[k] != k) return false; return true;
}
template<class T> static bool sequence_is(ce::items<T>, size_t n) { return n == 0; }
template<class T, size_t N> static bool seq() { return sequence_is(ce::sequence_t<T, N>{}, N) && sequence_is(typename ce::sequence<T, N>::type{}, N); }
struct job { char const* what; size_t n; bool (*f)(); };
template<class T, size_t B, size_t...Ns> static void jobs(std::vector<job>& v, char const* w, std::index_sequence<Ns...>) { job const j[] = { job{ w, B + Ns, seq<T, B + Ns> }... }; v.insert(v.end(), j, j + sizeof...(Ns)); }
static std::vector<job> all_jobs()
{
    std::vector<job> v;
    jobs<size_t, 0>(v, "size_t", std::make_index_sequence<401>{});
    jobs<size_t, 510>(v, "size_t", std::make_index_sequence<5>{}); jobs<size_t, 766>(v, "size_t", std::make_index_sequence<4>{}); jobs<size_t, 1022>(v, "size_t", std::make_index_sequence<5>{}); jobs<size_t, 2046>(v, "size_t", std::make_index_sequence<4>{}); jobs<size_t, 1365>(v, "size_t", std::make_index_sequence<2>{});
    jobs<unsigned char, 0>(v, "uint8", std::make_index_sequence<257>{}); jobs<signed char, 0>(v, "int8", std::make_index_sequence<129>{}); jobs<int, 0>(v, "int", std::make_index_sequence<130>{}); jobs<char, 0>(v, "char", std::make_index_sequence<65>{}); jobs<ce::uint64_t, 250>(v, "uint64", std::make_index_sequence<10>{});
    return v;
}
static std::vector<job> const seqs = all_jobs();
MC_SWEEP(sequences, 1013, 1013, 16) { each(lo, hi, [](u64 i) { if (i >= seqs.size()) return; job const& j = seqs[i]; MC_CHECK(j.f(), "sequence_t<%s, %zu> is not 0..%zu", j.what, j.n, j.n - 1); step(); if (j.n) nontrivial(); }); }

// ---- aggregates
enum class color : short { red = -3, blue = 7 };
template<int K> struct val;
template<> struct val<0> { using type = int; static type of(int s) { return 1000 + s; } };
template<> struct val<1> { using type = char const*; static type of(int s) { return "abcdefgh" + s; } };
template<> struct val<2> { using type = double; static type of(int s) { return s + 0.25; } };
template<> struct val<3> { using type = unsigned char; static type of(int s) { return (unsigned char)(200 + s); } };
template<> struct val<4> { using type = color; static type of(int s) { return s % 2 ? color::red : color::blue; } };
template<class T> struct agg1 { T alpha; };
template<class T, class U> struct agg2 { T alpha; U beta; };
template<class T, class U, class V> struct agg3 { T alpha; U beta; V gamma; };
template<class T, class U, class V, class W> struct agg4 { T alpha; U beta; V gamma; W delta; };
template<size_t N, class A, class T> static void member(A const& a, T const& want) { auto got = ce::get<N>(a); MC_CHECK((std::is_same<decltype(got), T>::value), "get<%zu> of an aggregate has the wrong type", size_t(N)); if constexpr (std::is_same<decltype(got), T>::value) MC_CHECK(got == want, "get<%zu> of an aggregate gives another member", size_t(N)); step(); }
template<int A> static void try1() { auto a = val<A>::of(0); using T = decltype(a); member<0>(agg1<T>{ a }, a); member<0>(ce::tuple<T>{ a }, a); }
template<int A, int B> static void try2() { auto a = val<A>::of(0); auto b = val<B>::of(1); using T = decltype(a); using U = decltype(b); agg2<T, U> g{ a, b }; member<0>(g, a); member<1>(g, b); ce::tuple<T, U> t{ a, b }; member<0>(t, a); member<1>(t, b); MC_CHECK(t.count == 2 && t._0 == a && t._1 == b, "tuple of two"); }
template<int A, int B, int C> static void try3() { auto a = val<A>::of(0); auto b = val<B>::of(1); auto c = val<C>::of(2); agg3<decltype(a), decltype(b), decltype(c)> g{ a, b, c }; member<0>(g, a); member<1>(g, b); member<2>(g, c); ce::tuple<decltype(a), decltype(b), decltype(c)> t{ a, b, c }; member<0>(t, a); member<1>(t, b); member<2>(t, c); MC_CHECK(t.count == 3, "tuple of three"); }
template<int A, int B, int C, int D> static void try4() { auto a = val<A>::of(0); auto b = val<B>::of(1); auto c = val<C>::of(2); auto d = val<D>::of(3); agg4<decltype(a), decltype(b), decltype(c), decltype(d)> g{ a, b, c, d }; member<0>(g, a); member<1>(g, b); member<2>(g, c); member<3>(g, d);
    ce::tuple<decltype(a), decltype(b), decltype(c), decltype(d)> t{ a, b, c, d }; member<0>(t, a); member<1>(t, b); member<2>(t, c); member<3>(t, d); MC_CHECK(t.count == 4, "tuple of four"); }
using fn = void (*)();
template<size_t...I> static void fill4(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(try4<I % 5, I / 5 % 5, I / 25 % 5, I / 125>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void fill3(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(try3<I % 5, I / 5 % 5, I / 25 % 5>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void fill2(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(try2<I % 5, I / 5 % 5>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void fill1(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(try1<I>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
MC_SWEEP(aggregates, 780, 780, 8)
{
    static fn f[780]; if (!f[0]) { fill1(f, std::make_index_sequence<5>{}); fill2(f + 5, std::make_index_sequence<25>{}); fill3(f + 30, std::make_index_sequence<125>{}); fill4(f + 155, std::make_index_sequence<625>{}); }
    each(lo, hi, [](u64 i) { f[i](); nontrivial(); });
}
// nested aggregates and vectors
MC_SWEEP(nested, 1, 1, 1)
{
    each(lo, hi, [](u64) {
        using in = agg2<int, double>; agg3<in, ce::pair<int, char>, in> g{ { 1, 2.5 }, { 3, 'x' }, { 4, 5.5 } };
        // an aggregate whose first member is an aggregate is counted by its own members
        ce::math::vec3<int> v{ 5, 6, 7 }; member<0>(v, 5); member<1>(v, 6); member<2>(v, 7); ce::math::vec2<float> w{ 1.5f, -2.5f }; member<0>(w, 1.5f); member<1>(w, -2.5f); ce::math::vec4<ce::int64_t> q{ 1, 2, 3, ce::int64_t(1) << 40 }; member<3>(q, ce::int64_t(1) << 40);
        (void)g; nontrivial();
        MC_CHECK(ce::tuple<>::count == 0, "empty tuple");
    });
}
// ---- items and type lists
template<int...Ns> static void values(std::initializer_list<int> w) { MC_CHECK((ce::items<int, Ns...>::count == sizeof...(Ns)), "count of items"); if constexpr (sizeof...(Ns) > 0) { MC_CHECK((CE_COUNTOF(ce::items_v<int, Ns...>) == w.size()), "items_v has the wrong length"); size_t k = 0; for (int x : w) MC_CHECK((ce::items_v<int, Ns...>[k++] == x), "items_v has other values in it"); } step(); nontrivial(); }
#define VALUES(...) values<__VA_ARGS__>({ __VA_ARGS__ })
template<int K> struct ty; template<> struct ty<0> { using t = int; }; template<> struct ty<1> { using t = long; }; template<> struct ty<2> { using t = int const; }; template<> struct ty<3> { using t = int&; }; template<> struct ty<4> { using t = void; };
template<int K> using tt = typename ty<K>::t;
template<class...Ts> struct first { using t = void; }; template<class T, class...Ts> struct first<T, Ts...> { using t = T; };
template<class...Ts> static constexpr bool std_same() { return sizeof...(Ts) > 0 && (std::is_same<typename first<Ts...>::t, Ts>::value && ...); }
template<class T, class...Us> static constexpr bool std_has() { return (std::is_same<T, Us>::value || ...); }
template<class T> struct wrap { };
template<class...Ts, size_t...I> static bool select_all(std::index_sequence<I...>) { using tup = std::tuple<wrap<Ts>...>; return (std::is_same<wrap<ce::select_t<I, Ts...>>, std::tuple_element_t<I, tup>>::value && ...); }
template<class...Ts> static void list()
{
    constexpr size_t n = sizeof...(Ts); using L = ce::types<Ts...>;
    MC_CHECK((ce::are_same_v<Ts...> == std_same<Ts...>()), "are_same_v of a list of %zu types", n);
    MC_CHECK((ce::are_same<Ts...>::value == std_same<Ts...>()), "are_same of a list of %zu types", n);
    MC_CHECK(L::count == n, "count of a type list");
    if constexpr (n > 0)
    {
        MC_CHECK((select_all<Ts...>(std::make_index_sequence<n>{})), "select_t of a list of %zu types", n);
        MC_CHECK((std::is_same<ce::car_t<Ts...>, typename first<Ts...>::t>::value), "car_t of a list of %zu types", n);
        MC_CHECK((std::is_same<ce::types<typename first<Ts...>::t>, ce::types<ce::car_t<Ts...>>>::value && ce::cdr_t<Ts...>::count == n - 1), "cdr_t of a list of %zu types", n);
    }
    step(); nontrivial();
}
template<class T, class...Us> static void in_list() { MC_CHECK((ce::has_v<T, Us...> == std_has<T, Us...>()), "has_v in a list of %zu types", sizeof...(Us)); MC_CHECK((ce::has<T, Us...>::value == std_has<T, Us...>()), "has in a list of %zu types", sizeof...(Us)); if constexpr (sizeof...(Us) > 0) list<T, Us...>(); else list<T>(); }
template<class T, class U> static void two() { MC_CHECK((ce::is_same_v<T, U> == std::is_same<T, U>::value && ce::is_same<T, U>::value == std::is_same<T, U>::value), "is_same"); MC_CHECK((std::is_same<ce::cond_t<true, T, U>, T>::value && std::is_same<ce::cond_t<false, T, U>, U>::value), "cond_t"); MC_CHECK((std::is_same<ce::enable_t<true, T>, T>::value), "enable_t"); }
template<size_t...I> static void lists2(fn* f, std::index_sequence<I...>) { fn const g[] = { fn([] { in_list<tt<I % 5>, tt<I / 5>>(); two<tt<I % 5>, tt<I / 5>>(); })... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void lists3(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(in_list<tt<I % 5>, tt<I / 5 % 5>, tt<I / 25>>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void lists4(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(in_list<tt<I % 5>, tt<I / 5 % 5>, tt<I / 25 % 5>, tt<I / 125>>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<size_t...I> static void lists1(fn* f, std::index_sequence<I...>) { fn const g[] = { fn(in_list<tt<I>>)... }; for (size_t k = 0; k < sizeof...(I); ++k) f[k] = g[k]; }
template<class, class = void> struct enables_false : std::false_type { };
template<class T> struct enables_false<T, std::void_t<ce::enable_t<false, T>>> : std::true_type { };
template<class, class = void> struct selects2 : std::false_type { };
template<class T> struct selects2<T, std::void_t<ce::select_t<2, T, T>>> : std::true_type { };
template<class T, class = void> struct enables_same : std::false_type { };
template<class T> struct enables_same<T, std::void_t<ce::enable_same_t<T, int>>> : std::true_type { };
MC_SWEEP(lists, 781, 781, 16)
{
    static fn f[780]; if (!f[0]) { lists1(f, std::make_index_sequence<5>{}); lists2(f + 5, std::make_index_sequence<25>{}); lists3(f + 30, std::make_index_sequence<125>{}); lists4(f + 155, std::make_index_sequence<625>{}); }
    each(lo, hi, [](u64 i) { if (i < 780) return f[i]();
        list<>(); VALUES(0); VALUES(7); VALUES(1, 2); VALUES(2, 1); VALUES(-1, 5, 5); VALUES(9, 8, 7, 6); VALUES(0, 0, 0, 1, 0); VALUES(3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9);
        MC_CHECK(!ce::has<>::value && !ce::has_v<int>, "has without a list"); MC_CHECK((ce::items<int, 42>::value == 42 && ce::items<char, 'x'>::value == 'x' && ce::items<int>::count == 0), "items");
        MC_CHECK(!enables_false<int>::value, "enable_t<false> names a type"); MC_CHECK(!selects2<int>::value, "select_t beyond the list names a type"); MC_CHECK(enables_same<int>::value && !enables_same<long>::value, "enable_same_t");
        MC_CHECK((ce::is_enum<color>::value && !ce::is_enum<int>::value && std::is_same<ce::underlying_type_t<color>, short>::value), "enum traits"); });
}
// ---- qualifiers
template<class T> static void bare()
{
    MC_CHECK((std::is_same<ce::remove_reference_t<T>, std::remove_reference_t<T>>::value), "remove_reference");
    MC_CHECK((std::is_same<ce::remove_const_t<T>, std::remove_const_t<T>>::value), "remove_const");
    MC_CHECK((std::is_same<ce::remove_volatile_t<T>, std::remove_volatile_t<T>>::value), "remove_volatile");
    MC_CHECK((std::is_same<ce::remove_cv_t<T>, std::remove_cv_t<T>>::value), "remove_cv");
    MC_CHECK((std::is_same<ce::remove_cvref_t<T>, std::remove_cv_t<std::remove_reference_t<T>>>::value), "remove_cvref");
    MC_CHECK((std::is_same<ce::remove_pointer_t<T>, std::remove_pointer_t<T>>::value), "remove_pointer");
    MC_CHECK((ce::is_ptr<T>::value == std::is_pointer<std::remove_reference_t<T>>::value), "is_ptr"); step(); nontrivial();
    using D = std::remove_reference_t<T>;
    if constexpr (!std::is_void<D>::value && !std::is_function<D>::value && !std::is_reference<T>::value)
    {
        constexpr bool v = __is_trivially_copyable(T) && sizeof(T) <= 16;
        MC_CHECK(ce::is_trivially_pass_by_value<T>::value == v, "is_trivially_pass_by_value"); MC_CHECK((std::is_same<ce::best_pass_by_value_t<T>, std::conditional_t<v, T, T const&>>::value), "best_pass_by_value_t");
    }
}
template<class T> static void quals() { bare<T>(); bare<T const>(); bare<T volatile>(); bare<T const volatile>(); if constexpr (!std::is_void<T>::value) { bare<T&>(); bare<T const&>(); bare<T&&>(); bare<T const volatile&&>(); } }
struct big { char c[17]; }; struct fits { char c[16]; };
MC_SWEEP(qualifiers, 16, 16, 1)
{
    static fn const f[] = { quals<int>, quals<void>, quals<char*>, quals<char const*>, quals<int**>, quals<int* const*>, quals<int const* volatile*>, quals<double>, quals<color>, quals<std::string>, quals<big>, quals<fits>, quals<int (*)(int)>, quals<ce::span<int>>, quals<ce::span<int>*>, quals<int big::*> };
    each(lo, hi, [](u64 i) { f[i](); });
}
#endif
// ---- colors as arrays, values as other types: every 4-tuple of boundary values
template<class T> static void colors(u64 i)
{
    T const v[7] = { T(0), T(1), T(2), T(127), T(200), T(99), T(255) };
    T w[4]; for (T& x : w) x = v[i % 7], i /= 7;
    ce::rgba<T> const c{ w[0], w[1], w[2], w[3] }; using A = T const (&)[4]; A a = c; A b = c();
    MC_CHECK(c.r == w[0] && c.g == w[1] && c.b == w[2] && c.a == w[3], "members of a color");
    for (int k = 0; k < 4; ++k) MC_CHECK(a[k] == w[k] && b[k] == w[k] && &a[k] == &b[k], "element %d of a color", k);
    MC_CHECK((void const*)a == (void const*)&c && CE_COUNTOF(a) == 4 && sizeof(c) == 4 * sizeof(T), "a color is not an array of four"); nontrivial(); step();
}
MC_SWEEP(rgba, 2401 * 4, 2401 * 4, 64)
{
    each(lo, hi, [](u64 i) { switch (i % 4) { case 0: return colors<unsigned char>(i / 4); case 1: return colors<unsigned short>(i / 4); case 2: return colors<float>(i / 4); default: return colors<double>(i / 4); } });
}
MC_SWEEP(casts, 65536, 65536, 1024)
{
    enum class small : short { }; enum class wide : ce::uint64_t { };
    each(lo, hi, [](u64 i) { MC_CHECK(ce::as_cast{ small(short(i)) }.as == short(i), "as_cast of an enumerator"); u64 z = i * 0x100010001ull ^ i << 61; MC_CHECK(ce::as_cast{ wide(z) }.as == z, "as_cast of an enumerator");
        float f; unsigned b = unsigned(i) << 16 | unsigned(i) * 77 % 65536; __builtin_memcpy(&f, &b, 4); if (f == f) { ce::as_cast<unsigned, float> c{ f }; MC_CHECK(c.as == b, "as_cast of the float with bits %08x is %08x", b, c.as); } nontrivial(); step(); });
}
// ---- counting
MC_SWEEP(counts, 1, 1, 1)
{
    each(lo, hi, [](u64) { int a[1], b[7], c[300][2]; (void)a; (void)b; (void)c; MC_CHECK(CE_COUNTOF(a) == 1 && CE_COUNTOF(b) == 7 && CE_COUNTOF(c) == 300 && CE_COUNTOF("abc") == 4, "CE_COUNTOF"); MC_CHECK(CE_COUNTOF_ARGS() == 0 && CE_COUNTOF_ARGS(1) == 1 && CE_COUNTOF_ARGS(a, "x", 3.0, b) == 4, "CE_COUNTOF_ARGS");
        int x = 1, y = 2; ce::swap(x, y); MC_CHECK(x == 2 && y == 1, "swap"); std::string s("left"), t("a much longer text on the right hand side"); ce::swap(s, t); MC_CHECK(t == "left" && s[0] == 'a', "swap of strings"); ce::swap(s, s); MC_CHECK(s[0] == 'a', "swap with itself"); nontrivial(); step(); });
}
