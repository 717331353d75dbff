//@ level: exploration
//@ technique: bounded exhaustive enumeration of sorted ranges (every pattern of ties) and keys run on the real search templates, against the definition
//@ note: The searches only compare, so every sequence of ties of n elements with every key between, on and around them covers every behaviour on n elements. Longer ranges are covered for complete families (all distinct, one block of equals at every place).
//@ cxx: -O1 -fsanitize=address
//@ rule: the range is not empty and the boundary is inside it
//@ bounds: every tie pattern of 0..15 elements (thorough 20) with every key; lengths up to 300 (2000) with every block position; 9 (14) lengths around 2^16, 2^17, 2^20 with every key; lengths around 2^31 and 2^32; exact-size buffers
//@ assume: AddressSanitizer watches the exact-size buffer, the element type records that only operator< is used
#include "mc.h"
#include "ce/sort.h"
#include <cstdlib>
#include <string>
#include <cstring>
using namespace mc;

struct item
{
    int key; char junk;
    explicit item(int k) : key(k), junk(char(k * 7)) { }
    friend bool operator<(item const& a, item const& b) { return a.key < b.key; }
    bool operator==(item const&) const = delete;
    bool operator>(item const&) const = delete;
};

template<class T> static T mk(int k) { return T(k); }
template<class T> static int key(T const& t) { return t; }
template<> int key(item const& t) { return t.key; }

// keys are even numbers, queries every number around them
template<class T> static void query(T const* a, int n, int q)
{
    int lo = 0, hi = 0;
    for (int i = 0; i < n; ++i) lo += key(a[i]) < q, hi += key(a[i]) <= q;
    T const* l = ce::lower_bound(a, a + n, mk<T>(q)); step();
    T const* u = ce::upper_bound(a, a + n, mk<T>(q)); step();
    if (l != a + lo || u != a + hi)
    {
        std::string s; for (int i = 0; i < n && i < 40; ++i) s += std::to_string(key(a[i])) + " ";
        fail("range of %d [%s] key %d: lower_bound at %td expected %d, upper_bound at %td expected %d", n, s.c_str(), q, l - a, lo, u - a, hi);
    }
    if (n && (lo < n || hi < n)) nontrivial();
}
template<class T> static void patterns(u64 lo, u64 hi, int n)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        T* a = (T*)malloc(size_t(n) * sizeof(T)); int k = 2;
        for (int j = 0; j < n; ++j) { if (j && (i >> (j - 1) & 1)) k += 2; new ((void*)(a + j)) T(mk<T>(k)); }
        for (int q = 1; q <= k + 1; ++q) query(a, n, q);
        if (i % 509 == 3) { hasher h; h.u(i); outcome(h); if (want_sample()) sample("%d elements, tie pattern %llx, %d keys", n, i, k + 1); }
        free(a);
    }
}
#define P(N) MC_SWEEP(ties##N, (1ull << (N ? N - 1 : 0)), (1ull << (N ? N - 1 : 0)), 512) { patterns<item>(lo, hi, N); }
P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15)
#define PT(N) MC_SWEEP(ties##N, 0, (1ull << (N - 1)), 512) { patterns<item>(lo, hi, N); }
PT(16) PT(17) PT(18) PT(19) PT(20)
MC_SWEEP(ints, 1 << 11, 1 << 11, 64) { patterns<int>(lo, hi, 12); patterns<long>(lo, hi, 12); patterns<short>(lo, hi, 11); }

// one block of equal elements at every place and of every length
MC_SWEEP(blocks, 120, 300, 4)
{
    for (u64 n = lo; n < hi; ++n)
    {
        at(n);
        int* a = (int*)malloc(n * sizeof(int));
        for (u64 b = 0; b <= n; ++b) for (u64 e = b; e <= n; e += e < b + 4 ? 1 : 7)
        {
            int k = 0; for (u64 i = 0; i < n; ++i) { if (i <= b || i >= e) k += 2; a[i] = k; }
            int at_b = b < n ? a[b] : k;
            for (int q = at_b - 3; q <= at_b + 3; ++q) query(a, int(n), q);
            query(a, int(n), 0); query(a, int(n), k); query(a, int(n), k + 1);
        }
        free(a);
    }
}
// every key of every length, all distinct
MC_SWEEP(lengths, 700, 2600, 4)
{
    for (u64 n = lo; n < hi; ++n)
    {
        at(n);
        int* a = (int*)malloc(n * sizeof(int)); for (u64 i = 0; i < n; ++i) a[i] = int(i) * 2;
        for (int q = -1; q <= int(n) * 2; ++q)
        {
            int lo_ = q <= 0 ? 0 : (q + 1) / 2, hi_ = q < 0 ? 0 : q / 2 + 1; if (lo_ > int(n)) lo_ = int(n); if (hi_ > int(n)) hi_ = int(n);
            auto l = ce::lower_bound<int>(a, a + n, q) - a, u = ce::upper_bound<int>(a, a + n, q) - a; step(2); if (lo_ < int(n)) nontrivial();
            MC_CHECK(l == lo_ && u == hi_, "%llu distinct elements, key %d: lower_bound %td expected %d, upper_bound %td expected %d", n, q, l, lo_, u, hi_);
        }
        free(a);
    }
}
// a range that overlaps the whole address range a size_t can describe is out of reach; extreme values instead
MC_SWEEP(extremes, 81, 81, 1)
{
    static const long long v[] = { (-9223372036854775807ll - 1), -9223372036854775807ll, -1, 0, 1, 2147483648ll, 4294967295ll, 9223372036854775806ll, 9223372036854775807ll };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); int s = int(i / 9), e = int(i % 9); if (s > e) continue;
        for (int q = 0; q < 9; ++q)
        {
            int n = e - s, lo_ = 0, hi_ = 0; for (int j = s; j < e; ++j) lo_ += v[j] < v[q], hi_ += v[j] <= v[q];
            long long* a = (long long*)malloc(size_t(n) * 8); memcpy(a, v + s, size_t(n) * 8); nontrivial(); step(2);
            MC_CHECK(ce::lower_bound<long long>(a, a + n, v[q]) == a + lo_ && ce::upper_bound<long long>(a, a + n, v[q]) == a + hi_, "64 bit extremes %d..%d key %d", s, e, q);
            free(a);
        }
    }
}
// long ranges: every key of distinct elements and of runs, lengths around 2^16, 2^17 and 2^20
MC_SWEEP(long_ranges, 9 * 4, 14 * 4, 1)
{
    static int const ns[] = { 65535, 65536, 65537, 131071, 131072, 131073, 200003, 1048576, 1048577, 262143, 262145, 4194304, 16777215, 16777217 };
    static int const runs[] = { 1, 3, 256, 65536 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
        int n = ns[i / 4], run = runs[i % 4];
        int* a = (int*)malloc(size_t(n) * sizeof(int)); for (int j = 0; j < n; ++j) a[j] = j / run * 2;
        int last = (n - 1) / run * 2, stride = last > 600000 ? 7 : 1; nontrivial();
        for (int q = -1; q <= last + 1; q += stride)
        {
            long lo_ = q <= 0 ? 0 : long(q + 1) / 2 * run, hi_ = q < 0 ? 0 : (long(q) / 2 + 1) * run; if (lo_ > n) lo_ = n; if (hi_ > n) hi_ = n;
            auto l = ce::lower_bound<int>(a, a + n, q) - a, u = ce::upper_bound<int>(a, a + n, q) - a; step(2);
            MC_CHECK(l == lo_ && u == hi_, "%d elements in runs of %d, key %d: lower_bound %td expected %ld, upper_bound %td expected %ld", n, run, q, l, lo_, u, hi_);
        }
        free(a);
    }
}
// lengths around 2^31 and 2^32: zero pages that are only read, a few ones at the end
#include <sys/mman.h>
MC_SWEEP(huge, 6, 6, 1)
{
    static u64 const ns[] = { (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 4097, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 12345 };
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); u64 n = ns[i];
        unsigned char* a = (unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) fail("harness: no address space");
        for (u64 ones : { 0u, 1u, 2u, 4000u, 100000u })
        {
            memset(a + n - ones, 1, ones);
            for (int q = 0; q <= 2; ++q)
            {
                u64 lo_ = q == 0 ? 0 : q == 1 ? n - ones : n, hi_ = q == 0 ? n - ones : n;
                u64 l = u64(ce::lower_bound<unsigned char>(a, a + n, (unsigned char)q) - a), u = u64(ce::upper_bound<unsigned char>(a, a + n, (unsigned char)q) - a); step(2); nontrivial();
                MC_CHECK(l == lo_ && u == hi_, "%llu bytes, the last %llu are 1, key %d: lower_bound %llu expected %llu, upper_bound %llu expected %llu", n, ones, q, l, lo_, u, hi_);
            }
        }
        munmap(a, n);
    }
}
