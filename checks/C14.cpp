//@ level: model_checking
//@ technique: stateless exhaustive search over object shapes, list sizes and visitor answers through the real reflection templates, comparing the complete event sequence (with field addresses) with a hand-written expectation; exhaustive enumeration of binding texts
//@ note: All list sizes and all size changes a visitor may make, for 14 representative types with every construct of the library; binding texts completely up to 8 characters.
//@ cxx: -O1 -fbracket-depth=1024 -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined
//@ bounds: 14 root types, list sizes 0..3 with every change of size by the visitor, nesting up to 4; 300 fields, names of 300 characters, arrays of 66000, lists of 0..70000 (10 sizes, each changed to each), 41 nested classes, inherited fields and members of members; binding texts over {a, a byte above 127, _ 1 space , tab} up to 8 (9) characters with 1..4 names
//@ assume: an object is identified by address and type; the expectation is written by hand for every type
#include "mc.h"
#include "ce/ce.h"
#include "ce/io.h"
#include <string>
#include <vector>
#include <typeinfo>
#include <cstring>
using namespace mc;
using std::string;

enum class col : unsigned char { red = 1 };
struct leafs { int i; double d; char c; bool b; col e; void* p; unsigned long long u; short s; };
CE_IO_BIND(leafs, i, d, c, b, e, p, u, s);
struct spaced { int first, second_2, _x; };
CE_IO_BIND(spaced,   first ,second_2  ,   _x  );
struct reordered { int a, b, c; };
CE_IO_BIND(reordered, c, a);
struct one_field { signed char only; };
CE_IO_BIND(one_field, only);
struct arrays { int a[3]; one_field f[2]; int m[2][2]; int last[1]; };
CE_IO_BIND(arrays, a, f, m, last);
struct vecs { ce::vec2<int> v2; ce::vec3<short> v3; ce::vec4<unsigned char> v4; ce::vec1<float> v1; ce::vec2<int> v2s[2]; };
CE_IO_BIND(vecs, v2, v3, v4, v1, v2s);
struct lists { ce::list<int, 3> ints; ce::list<one_field, 2> objs; int tail; };
CE_IO_BIND(lists, ints, objs, tail);
struct deep { ce::list<ce::list<short, 2>, 2> ll; ce::list<ce::vec2<int>, 2> lv; reordered r; };
CE_IO_BIND(deep, ll, lv, r);
struct wrapped { int x, y; };
CE_IO_AS(wrapped, int[2]);
struct as_class { int a, b, c; };
CE_IO_AS(as_class, reordered);
struct uses_as { wrapped w; as_class k; ce::list<wrapped, 2> ws; };
CE_IO_BIND(uses_as, w, k, ws);
struct many { int a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1; };
CE_IO_BIND(many, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1);

// beyond small sizes: many fields, long names, long arrays and lists, deep nesting, members of members
#define EACH10(M, p) M(p##0) M(p##1) M(p##2) M(p##3) M(p##4) M(p##5) M(p##6) M(p##7) M(p##8) M(p##9)
#define LIST10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
#define EACH100(M, p) EACH10(M, p##0) EACH10(M, p##1) EACH10(M, p##2) EACH10(M, p##3) EACH10(M, p##4) EACH10(M, p##5) EACH10(M, p##6) EACH10(M, p##7) EACH10(M, p##8) EACH10(M, p##9)
#define LIST100(p) LIST10(p##0), LIST10(p##1), LIST10(p##2), LIST10(p##3), LIST10(p##4), LIST10(p##5), LIST10(p##6), LIST10(p##7), LIST10(p##8), LIST10(p##9)
#define EACH300(M) EACH100(M, field_) EACH100(M, g) EACH100(M, H_)
#define BIND_EXPANDED(...) CE_IO_BIND(__VA_ARGS__)
#define DECLARE_SHORT(n) short n;
struct wide { EACH300(DECLARE_SHORT) };
BIND_EXPANDED(wide, LIST100(field_), LIST100(g), LIST100(H_));
#define LONG_A this_is_a_very_long_name_of_a_field_which_goes_on_and_on_until_it_has_many_more_characters_than_any_buffer_of_a_small_power_of_two_could_possibly_hold_such_as_sixty_four_or_one_hundred_and_twenty_eight_or_even_two_hundred_and_fifty_six_which_is_passed_about_here_and_now_at_the_very_end_of_it
#define LONG_B LONG_B_1234567890_1234567890_1234567890_1234567890_1234567890_
struct long_names { int LONG_A; short z; char LONG_B; };
BIND_EXPANDED(long_names, LONG_A, z, LONG_B);
struct big { unsigned char a[66000]; ce::list<char, 70000> l; short tail; };
CE_IO_BIND(big, a, l, tail);
template<int N> struct nest { short before; nest<N - 1> in; short after; }; template<> struct nest<0> { short leaf; };
#define BIND_NEST(N) CE_IO_BIND(nest<N>, before, in, after)
CE_IO_BIND(nest<0>, leaf);
BIND_NEST(1); BIND_NEST(2); BIND_NEST(3); BIND_NEST(4); BIND_NEST(5); BIND_NEST(6); BIND_NEST(7); BIND_NEST(8); BIND_NEST(9); BIND_NEST(10); BIND_NEST(11); BIND_NEST(12); BIND_NEST(13); BIND_NEST(14); BIND_NEST(15); BIND_NEST(16); BIND_NEST(17); BIND_NEST(18); BIND_NEST(19); BIND_NEST(20);
BIND_NEST(21); BIND_NEST(22); BIND_NEST(23); BIND_NEST(24); BIND_NEST(25); BIND_NEST(26); BIND_NEST(27); BIND_NEST(28); BIND_NEST(29); BIND_NEST(30); BIND_NEST(31); BIND_NEST(32); BIND_NEST(33); BIND_NEST(34); BIND_NEST(35); BIND_NEST(36); BIND_NEST(37); BIND_NEST(38); BIND_NEST(39); BIND_NEST(40);
struct base_part { int low, mid; }; struct derived : base_part { reordered part; short own; };
CE_IO_BIND(derived, own, mid, part.b, part, low);

struct event { string what; void const* at; };
static bool operator==(event const& a, event const& b) { return a.what == b.what && a.at == b.at; }

// the real traversal; for bounded lists the visitor may ask for another size before the items are visited
struct visitor : ce::io<visitor>
{
    std::vector<event> ev; bool resize = false, write = false; std::vector<size_t> sizes; size_t limit = 3;
    void enter_class() { ev.push_back({ "{", nullptr }); }
    void leave_class() { ev.push_back({ "}", nullptr }); }
    void name(char const* n) { ev.push_back({ string("name ") + n, nullptr }); }
    void enter_array(size_t& n, bool var)
    {
        ev.push_back({ (var ? "var[" : "fix[") + std::to_string(n), var ? (void*)&n : nullptr });
        if (var && resize) { n = pick(cap.at(&n)); sizes.push_back(n); }
    }
    void leave_array(size_t& n, bool var) { ev.push_back({ (var ? "]var " : "]fix ") + std::to_string(n), var ? (void*)&n : nullptr }); }
    template<class T> void atom(T& t) { ev.push_back({ string("atom ") + typeid(T).name(), &t }); if (write) memset((void*)&t, 0x11, sizeof t); }
    static size_t pick(size_t most) { static const size_t at[] = { 0, 1, 255, 256, 257, 32768, 65535, 65536, 65537, 70000 }; return most < 10 ? size_t(choose(int(most) + 1)) : at[choose(10)]; }
    struct caps { std::vector<std::pair<void const*, size_t>> v; size_t at(void const* p) { for (auto& e : v) if (e.first == p) return e.second; fail("a list of unknown address was entered"); } } cap;
};
// the expectation, from the definition
struct expect
{
    std::vector<event> ev; std::vector<size_t>* sizes = nullptr; size_t next = 0; visitor::caps* caps = nullptr;
    void open() { ev.push_back({ "{", nullptr }); } void close() { ev.push_back({ "}", nullptr }); }
    void name(char const* n) { ev.push_back({ string("name ") + n, nullptr }); }
    template<class T> void atom(T const& t) { ev.push_back({ string("atom ") + typeid(T).name(), &t }); }
    template<class T> void field(char const* n, T const& t) { name(n); see(t); }
    void see(int const& t) { atom(t); } void see(double const& t) { atom(t); } void see(char const& t) { atom(t); } void see(bool const& t) { atom(t); } void see(col const& t) { atom(t); } void see(void* const& t) { atom(t); }
    void see(unsigned long long const& t) { atom(t); } void see(short const& t) { atom(t); } void see(signed char const& t) { atom(t); } void see(unsigned char const& t) { atom(t); } void see(float const& t) { atom(t); }
    template<class T, size_t N> void see(T const (&a)[N]) { ev.push_back({ "fix[" + std::to_string(N), nullptr }); for (auto& x : a) see(x); ev.push_back({ "]fix " + std::to_string(N), nullptr }); }
    template<class T, size_t N> void see_list(ce::bulk<N, T> const& l)
    {
        ev.push_back({ "var[" + std::to_string(sizes ? l.size : l.size), &l.size });
        size_t n = l.size; if (sizes) { n = (*sizes)[next++]; }
        for (size_t i = 0; i < n; ++i) see(l.data[i]);
        ev.push_back({ "]var " + std::to_string(n), &l.size });
    }
    void see(ce::list<int, 3> const& l) { see_list(l); } void see(ce::list<one_field, 2> const& l) { see_list(l); } void see(ce::list<short, 2> const& l) { see_list(l); }
    void see(ce::list<ce::list<short, 2>, 2> const& l) { see_list(l); } void see(ce::list<ce::vec2<int>, 2> const& l) { see_list(l); } void see(ce::list<wrapped, 2> const& l) { see_list(l); }
    void see(ce::vec2<int> const& v) { open(); field("x", v.x); field("y", v.y); close(); }
    template<class T> void vec_n(T const* p, size_t n) { ev.push_back({ "fix[" + std::to_string(n), nullptr }); for (size_t i = 0; i < n; ++i) see(p[i]); ev.push_back({ "]fix " + std::to_string(n), nullptr }); }
    void see(ce::vec3<short> const& v) { vec_n(&v.x, 3); } void see(ce::vec4<unsigned char> const& v) { vec_n(&v.x, 4); } void see(ce::vec1<float> const& v) { vec_n(&v.x, 1); }
    void see(leafs const& o) { open(); field("i", o.i); field("d", o.d); field("c", o.c); field("b", o.b); field("e", o.e); field("p", o.p); field("u", o.u); field("s", o.s); close(); }
    void see(spaced const& o) { open(); field("first", o.first); field("second_2", o.second_2); field("_x", o._x); close(); }
    void see(reordered const& o) { open(); field("c", o.c); field("a", o.a); close(); }
    void see(one_field const& o) { open(); field("only", o.only); close(); }
    void see(arrays const& o) { open(); field("a", o.a); field("f", o.f); field("m", o.m); field("last", o.last); close(); }
    void see(vecs const& o) { open(); field("v2", o.v2); field("v3", o.v3); field("v4", o.v4); field("v1", o.v1); field("v2s", o.v2s); close(); }
    void see(lists const& o) { open(); field("ints", o.ints); field("objs", o.objs); field("tail", o.tail); close(); }
    void see(deep const& o) { open(); field("ll", o.ll); field("lv", o.lv); field("r", o.r); close(); }
    void see(wrapped const& o) { vec_n(&o.x, 2); }
    void see(as_class const& o) { open(); field("c", o.c); field("a", o.a); close(); }
    void see(uses_as const& o) { open(); field("w", o.w); field("k", o.k); field("ws", o.ws); close(); }
    void see(ce::list<char, 70000> const& l) { see_list(l); }
#define SEE(n) field(#n, o.n);
    void see(wide const& o) { open(); EACH300(SEE) close(); }
#define TEXT_OF(...) #__VA_ARGS__
#define TEXT(...) TEXT_OF(__VA_ARGS__)
    void see(long_names const& o) { open(); field(TEXT(LONG_A), o.LONG_A); field("z", o.z); field(TEXT(LONG_B), o.LONG_B); close(); }
    void see(big const& o) { open(); field("a", o.a); field("l", o.l); field("tail", o.tail); close(); }
    void see(nest<0> const& o) { open(); field("leaf", o.leaf); close(); }
    template<int N> void see(nest<N> const& o) { open(); field("before", o.before); field("in", o.in); field("after", o.after); close(); }
    void see(derived const& o) { open(); field("own", o.own); field("mid", o.mid); field("part.b", o.part.b); field("part", o.part); field("low", o.low); close(); }
    void see(many const& o) { open(); field("a0", o.a0); field("a1", o.a1); field("a2", o.a2); field("a3", o.a3); field("a4", o.a4); field("a5", o.a5); field("a6", o.a6); field("a7", o.a7); field("a8", o.a8); field("a9", o.a9); field("b0", o.b0); field("b1", o.b1); close(); }
};

static string show(std::vector<event> const& v, size_t from) { string s; for (size_t i = from; i < v.size() && i < from + 6; ++i) s += v[i].what + "; "; return s; }
template<class T> static void run(T& obj, visitor::caps const& caps, bool named)
{
    visitor v; v.cap = caps; v.resize = choose(2); v.write = true; v.sizes.reserve(64);
    static T before; memcpy((void*)&before, (void*)&obj, sizeof obj);
    // expected events use the sizes the list had on entry, so they are made from a copy of the object with the same addresses
    step();
    static char keep[sizeof(T)];
    if (named) v.item("the root", obj); else v.item(obj);
    memcpy(keep, (void*)&obj, sizeof obj);
    memcpy((void*)&obj, (void*)&before, sizeof obj);
    expect e; if (v.resize) e.sizes = &v.sizes;
    if (named) e.name("the root");
    e.see(obj);
    hasher h; h.s(typeid(T).name()); for (auto& x : v.ev) h.s(x.what.c_str()); state(h); outcome(h); step(v.ev.size());
    for (size_t i = 0; i < v.ev.size() || i < e.ev.size(); ++i)
        MC_CHECK(i < v.ev.size() && i < e.ev.size() && v.ev[i] == e.ev[i], "event %zu of %s: %s expected %s (%s)", i, typeid(T).name(), show(v.ev, i).c_str(), show(e.ev, i).c_str(), i < v.ev.size() && i < e.ev.size() && v.ev[i].what == e.ev[i].what ? "other object" : "other event");
    // what the visitor wrote is exactly the visited atoms and the list sizes
    std::vector<unsigned char> may(sizeof(T), 0);
    auto mark = [&](void const* p, size_t n) { size_t o = size_t((char const*)p - (char const*)&obj); MC_CHECK(o + n <= sizeof(T), "an atom outside the object"); for (size_t i = 0; i < n; ++i) may[o + i] = 1; };
    auto size_of = [](string const& w) -> size_t { static const std::pair<char const*, size_t> t[] = { { typeid(int).name(), 4 }, { typeid(double).name(), 8 }, { typeid(char).name(), 1 }, { typeid(bool).name(), 1 }, { typeid(col).name(), 1 }, { typeid(void*).name(), 8 }, { typeid(unsigned long long).name(), 8 }, { typeid(short).name(), 2 }, { typeid(signed char).name(), 1 }, { typeid(unsigned char).name(), 1 }, { typeid(float).name(), 4 } }; for (auto& x : t) if (w == string("atom ") + x.first) return x.second; return 0; };
    for (auto& x : e.ev) { if (x.what.compare(0, 5, "atom ") == 0) mark(x.at, size_of(x.what)); else if (x.at) mark(x.at, 8); }
    for (size_t i = 0; i < sizeof(T); ++i) if (!may[i]) MC_CHECK(keep[i] == ((char*)&before)[i], "byte %zu of the object changed", i);
    for (auto& x : e.ev) if (x.what.compare(0, 5, "atom ") == 0) for (size_t i = 0, o = size_t((char const*)x.at - (char const*)&obj); i < size_of(x.what); ++i) MC_CHECK(keep[o + i] == 0x11, "a visited atom was not written through");
    if (want_sample()) sample("%s: %s", typeid(T).name(), show(v.ev, 0).c_str());
}
template<class T> static T& object() { static unsigned char mem[sizeof(T) + 16] __attribute__((aligned(16))); memset(mem, 0, sizeof mem); return *reinterpret_cast<T*>(mem); }
template<class T> static void simple() { visitor::caps c; auto& o = object<T>(); for (size_t i = 0; i < sizeof o; ++i) ((char*)&o)[i] = char(i & 1); run(o, c, choose(2)); }
template<class T, size_t N> static void fill(ce::bulk<N, T>& l, visitor::caps& c, size_t n) { l.size = n; c.v.push_back({ &l.size, N }); }

MC_DFS(objects)
{
    visitor::caps c;
    switch (choose(14))
    {
    case 0: simple<leafs>(); break;
    case 1: simple<spaced>(); break;
    case 2: simple<reordered>(); break;
    case 3: simple<one_field>(); break;
    case 4: simple<arrays>(); break;
    case 5: simple<vecs>(); break;
    case 6: { auto& o = object<lists>(); fill(o.ints, c, size_t(choose(4))); fill(o.objs, c, size_t(choose(3))); run(o, c, choose(2)); break; }
    case 7:
    {
        auto& o = object<deep>(); fill(o.ll, c, size_t(choose(3)));
        // inner lists are valid up to their capacity, so that a visitor may extend the outer one
        for (int i = 0; i < 2; ++i) fill(o.ll.data[i], c, size_t(choose(3)));
        fill(o.lv, c, size_t(choose(3))); run(o, c, choose(2)); break;
    }
    case 8: simple<wrapped>(); break;
    case 9: simple<as_class>(); break;
    case 10: { auto& o = object<uses_as>(); fill(o.ws, c, size_t(choose(3))); run(o, c, choose(2)); break; }
    case 11: simple<many>(); break;
    case 12: simple<ce::vec2<int>>(); break;
    case 13: { auto& o = object<ce::list<int, 3>>(); fill(o, c, size_t(choose(4))); run(o, c, choose(2)); break; }
    }
}

MC_DFS(far_objects)
{
    visitor::caps c;
    switch (choose(5))
    {
    case 0: simple<wide>(); break;
    case 1: simple<long_names>(); break;
    case 2: simple<nest<40>>(); break;
    case 3: simple<derived>(); break;
    case 4: { auto& o = object<big>(); fill(o.l, c, visitor::pick(70000)); run(o, c, choose(2)); break; }
    }
}

// ---- binding texts
template<int N, int COUNT> static void names_of(string const& s, std::vector<string> const& want)
{
    char t[N]; memcpy(t, s.c_str(), N);
    auto* n = new ce::names_t<N, COUNT>(t);
    for (int i = 0; i < COUNT; ++i) MC_CHECK(n->names[i] >= n->text && n->names[i] < n->text + N && want[size_t(i)] == string(n->names[i], strnlen(n->names[i], size_t(n->text + N - n->names[i]))), "name %d of <%s> is <%s> expected <%s>", i, s.c_str(), n->names[i], want[size_t(i)].c_str());
    delete n;
}
template<int N> static void names_n(string const& s, std::vector<string> const& w)
{
    switch (w.size()) { case 1: names_of<N, 1>(s, w); break; case 2: names_of<N, 2>(s, w); break; case 3: names_of<N, 3>(s, w); break; case 4: names_of<N, 4>(s, w); break; case 5: names_of<N, 5>(s, w); break; }
}
template<int LEN> static void bindings(u64 lo, u64 hi)
{
    static const char alpha[] = "a\xe9_1 ,\t";
    std::vector<string> w;
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        string s; u64 r = i; for (int k = 0; k < LEN; ++k) s += alpha[r % 7], r /= 7;
        w.clear(); string cur; bool ok = true, ended = false;
        for (size_t k = 0; k <= s.size() && ok; ++k)
        {
            char c = k < s.size() ? s[k] : ',';
            if (c == ',') { ok = !cur.empty(); w.push_back(cur); cur.clear(); ended = false; }
            else if (c == ' ' || c == '\t') ended = !cur.empty();
            else { if (ended || (cur.empty() && c == '1')) ok = false; cur += c; }
        }
        if (!ok) continue;
        step(); hasher h; h.s(s.c_str()); state(h);
        names_n<LEN + 1>(s, w);
        if (i % 1013 == 3 && want_sample()) sample("<%s> has %zu names", s.c_str(), w.size());
    }
}
#define B(N, Q, T) MC_SWEEP(bindings##N, Q, T, 16384) { bindings<N>(lo, hi); }
B(1, 7, 7) B(2, 49, 49) B(3, 343, 343) B(4, 2401, 2401) B(5, 16807, 16807) B(6, 117649, 117649) B(7, 823543, 823543) B(8, 5764801, 5764801) B(9, 0, 40353607)
