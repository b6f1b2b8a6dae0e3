// Fixed-size sorters: -DFS=<template name> -DHDR=... -DSIZES=2,3,4,... [-DNET]
#include "common.h"
#include HDR
#include <array>
#include <cpp-sort/adapters/small_array_adapter.h>
#ifdef NET
#ifndef NARROW
#define NARROW unsigned char
#endif
#include <cpp-sort/utility/sorting_networks.h>
#endif
using namespace vrt;
template<std::size_t N> using fs = FS<N>;

// ---- a random-access iterator over integers which sees every dereference: two per compare-exchange
static uint8_t* g_base; static int g_n, g_deref, g_cut; static int g_pos[4096];
struct See {
    using iterator_category = std::random_access_iterator_tag; using value_type = uint8_t; using difference_type = std::ptrdiff_t; using pointer = uint8_t*; using reference = uint8_t&;
    uint8_t* p = nullptr;
    uint8_t& operator*() const { int i = (int)(p - g_base); if (g_deref < 4096) g_pos[g_deref] = i; if (g_cut && g_deref % (2 * g_cut) == 0) sym_order(g_base, g_n); ++g_deref; return *p; }
    uint8_t& operator[](std::ptrdiff_t d) const { return *(*this + d); }
    See& operator++() { ++p; return *this; } See operator++(int) { See r = *this; ++p; return r; } See& operator--() { --p; return *this; } See operator--(int) { See r = *this; --p; return r; }
    See& operator+=(std::ptrdiff_t d) { p += d; return *this; } See& operator-=(std::ptrdiff_t d) { p -= d; return *this; }
    friend See operator+(See a, std::ptrdiff_t d) { a.p += d; return a; } friend See operator+(std::ptrdiff_t d, See a) { a.p += d; return a; } friend See operator-(See a, std::ptrdiff_t d) { a.p -= d; return a; }
    friend std::ptrdiff_t operator-(See a, See b) { return a.p - b.p; }
    friend bool operator==(See a, See b) { return a.p == b.p; } friend bool operator!=(See a, See b) { return a.p != b.p; } friend bool operator<(See a, See b) { return a.p < b.p; } friend bool operator>(See a, See b) { return a.p > b.p; }
    friend bool operator<=(See a, See b) { return a.p <= b.p; } friend bool operator>=(See a, See b) { return a.p >= b.p; }
};
template<template<int> class F> void dispatch(int n, int a, int b, int c, int d) {
    static constexpr int sizes[] = {SIZES}; (void)sizes;
    bool hit = false;
    auto one = [&](auto I) { if (n == I.value) { hit = true; F<I.value>::run(a, b, c, d); } };
    [&]<int... S>(std::integer_sequence<int, S...>) { (one(std::integral_constant<int, S>{}), ...); }(std::integer_sequence<int, SIZES>{});
    if (!hit) sym_fail("harness: size not instantiated");
}

#ifdef NET
// every 0-1 input at once (0-1 principle), on the library's own compare-exchange of integers
template<class Run, class Comp> void zero_one(int n, int cut, bool desc, Run run, Comp comp) {
    uint8_t* v = (uint8_t*)sym_malloc(n); if (n) sym_bytes(v, n); for (int i = 0; i < n; ++i) v[i] &= 1;
    unsigned sum = 0; for (int i = 0; i < n; ++i) sum += v[i];
    g_base = v; g_n = n; g_deref = 0; g_cut = cut; sym_eager(0);
    run(See{v}, See{v + n}, comp);
    g_cut = 0; if (cut) sym_order(v, n);
    int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= desc ? v[i] >= v[i + 1] : v[i] <= v[i + 1];
    sym_assert(ok, "the array is not sorted");
    for (int i = 0; i < n; ++i) sym_observe(v[i]);
    sym_free(v);
}
template<int N> struct Op { static void run(int cut, int desc, int, int) {
    if (desc) zero_one(N, cut, true, [](See f, See l, auto c) { fs<N>{}(f, l, c); }, std::greater<>{});
    else zero_one(N, cut, false, [](See f, See l, auto c) { fs<N>{}(f, l, c); }, std::less<>{});
} };
template<int N> struct Pairs { static void run(int cut, int, int, int) {
    auto ps = fs<N>::template index_pairs<NARROW>();
    zero_one(N, cut, false, [&](See f, See, auto c) { if constexpr (N > 1) cppsort::utility::swap_index_pairs(f, ps, c); }, std::less<>{});
} };
extern "C" void e_net(int n, int cut, int desc) { dispatch<Op>(n, cut, desc, 0, 0); }
extern "C" void e_pairs(int n, int cut) { dispatch<Pairs>(n, cut, 0, 0, 0); }

// counts and positions (C07): the same compare-exchanges whatever the data, as many as documented
struct Rec { unsigned n = 0; int a[4096], b[4096]; };
template<int N> struct Count { static void run(int expected, int shape, int pat, int lev) {
    auto ps = fs<N>::index_pairs();
    sym_assert((int)ps.size() == expected, "index_pairs() has not the documented number of pairs");
    for (auto& q : ps) { if (q.first < 0 || q.second >= N || q.first >= q.second) sym_fail("index_pairs() holds an invalid or unordered pair"); }
    auto pu = fs<N>::template index_pairs<NARROW>();
    for (size_t i = 0; i < ps.size(); ++i) if ((int)pu[i].first != ps[i].first || (int)pu[i].second != ps[i].second) sym_fail("index_pairs() depends on the index type");
    static Rec ref, cur; ref = Rec(); cur = Rec();
    // reference positions: an all-equal array, seen by the integer path
    { uint8_t z[N + 1] = {}; g_base = z; g_n = N; g_deref = 0; g_cut = 0; fs<N>{}(See{z}, See{z + N}); sym_assert(g_deref == 2 * expected, "the network does not perform the documented number of compare-exchanges");
      for (int i = 0; i < expected; ++i) { int x = g_pos[2 * i], y = g_pos[2 * i + 1]; ref.a[i] = x < y ? x : y; ref.b[i] = x < y ? y : x; } }
    // symbolic data, generic elements and comparator
    std::vector<uint32_t> k; fill_keys(k, N, lev ? 1 : 0, lev, shape, pat, 1);
    Mov* v = (Mov*)sym_malloc(sizeof(Mov) * N); for (int i = 0; i < N; ++i) new (v + i) Mov(k[i], i);
    sym_eager(1);
    fs<N>{}(v, v + N, [&](const Mov& x, const Mov& y) { int i = (int)(&x - v), j = (int)(&y - v); if (cur.n < 4096) { cur.a[cur.n] = i < j ? i : j; cur.b[cur.n] = i < j ? j : i; } ++cur.n; return x.key < y.key; });
    sym_eager(0);
    sym_assert((int)cur.n == expected, "the number of comparisons is not the documented number of compare-exchanges");
    for (int i = 0; i < expected; ++i) if (cur.a[i] != ref.a[i] || cur.b[i] != ref.b[i]) sym_fail("the positions compared depend on the data");
    for (int i = 0; i < N; ++i) sym_observe(v[i].tag);
    for (int i = 0; i < N; ++i) v[i].~Mov(); sym_free(v);
} };
extern "C" void e_count(int n, int expected, int shape, int pat, int lev) { dispatch<Count>(n, expected, shape, pat, lev); }
#endif

// stability of the smallest networks (C02)
template<int N> struct Stab { static void run(int, int, int, int) {
    std::vector<uint32_t> k; fill_keys(k, N, 0, 0, 0, 0); Mov* v = (Mov*)sym_malloc(sizeof(Mov) * N); for (int i = 0; i < N; ++i) new (v + i) Mov(k[i], i);
    sym_eager(1); fs<N>{}(v, v + N, KeyLess{}); sym_eager(0); int ok = 1;
    for (int i = 0; i + 1 < N; ++i) { if (v[i].tag >= v[i + 1].tag) ok &= v[i].key < v[i + 1].key; } for (int i = 0; i < N; ++i) sym_observe(v[i].tag);
    sym_assert(ok, "two equivalent elements were reordered"); for (int i = 0; i < N; ++i) v[i].~Mov(); sym_free(v);
} };
extern "C" void e_stab(int n) { dispatch<Stab>(n, 0, 0, 0, 0); }
// generic elements: fam 0 free keys, fam 1 block-symbolic; lo..hi: keys of that subrange assumed sorted (-1: none)
template<class T, class R> int tags_ok(const T& v, int n, const R& k) {
    uint8_t seen[260] = {}; int ok = 1;
    for (int i = 0; i < n; ++i) { unsigned t = v[i].tag; sym_observe(t); if (t >= (unsigned)n) sym_fail("the array holds a moved-from element after the call"); if (seen[t]++) sym_fail("an element was lost"); ok &= v[i].key == k[t]; }
    return ok;
}
template<int N> void gen_keys(std::vector<uint32_t>& k, int fam, int m, int a, int b) {
    if (fam == 3) { k.resize(N); if (N) { uint8_t q[N + 1]; sym_bytes(q, N); for (int i = 0; i < N; ++i) k[i] = q[i]; } int ok = 1; for (int i = a; i + 1 < b; ++i) ok &= k[i] <= k[i + 1]; sym_assume(ok); }
    else fill_keys(k, N, fam, m, a, b, 1);
}
template<int N> struct Gen { static void run(int fam, int m, int a, int b) {
    std::vector<uint32_t> k; gen_keys<N>(k, fam, m, a, b);
    std::array<Mov, N> v; for (int i = 0; i < N; ++i) v[i] = Mov(k[i], i);
    sym_eager(1); fs<N>{}(v, KeyLess{}); sym_eager(0);
    int ok = tags_ok(v, N, k); for (int i = 0; i + 1 < N; ++i) ok &= v[i].key <= v[i + 1].key; sym_assert(ok, "the array is not sorted");
} };
template<int N> struct GenP { static void run(int fam, int m, int a, int b) {       // descending through a projection, custom iterators
    std::vector<uint32_t> k; gen_keys<N>(k, fam, m, a, b);
    Mov* v = (Mov*)sym_malloc(sizeof(Mov) * N); for (int i = 0; i < N; ++i) new (v + i) Mov(k[i], i);
    sym_eager(1); fs<N>{}(Ra<Mov>(v), Ra<Mov>(v + N), std::greater<>{}, &Mov::key); sym_eager(0);
    int ok = tags_ok(v, N, k); for (int i = 0; i + 1 < N; ++i) ok &= v[i].key >= v[i + 1].key; sym_assert(ok, "the array is not sorted");
    for (int i = 0; i < N; ++i) v[i].~Mov(); sym_free(v);
} };
template<int N> struct Small { static void run(int fam, int m, int a, int b) {      // small_array_adapter on C and std::array
    std::vector<uint32_t> k; gen_keys<N>(k, fam, m, a, b);
    using A = cppsort::small_array_adapter<FS>; int ok = 1;
    if constexpr (N > 0) { Mov v[N]; for (int i = 0; i < N; ++i) v[i] = Mov(k[i], i);
      sym_eager(1); A{}(v, KeyLess{}); sym_eager(0);
      ok &= tags_ok(v, N, k); for (int i = 0; i + 1 < N; ++i) ok &= v[i].key <= v[i + 1].key; }
    { std::array<Mov, N> v; for (int i = 0; i < N; ++i) v[i] = Mov(k[i], i);
      sym_eager(1); A{}(v, std::greater<>{}, &Mov::key); sym_eager(0);
      ok &= tags_ok(v, N, k); for (int i = 0; i + 1 < N; ++i) ok &= v[i].key >= v[i + 1].key; }
    sym_assert(ok, "small_array_adapter did not sort the array");
} };
extern "C" void e_gen(int n, int fam, int m, int a, int b) { dispatch<Gen>(n, fam, m, a, b); }
extern "C" void e_genp(int n, int fam, int m, int a, int b) { dispatch<GenP>(n, fam, m, a, b); }
#ifndef NOSMALL
extern "C" void e_small(int n, int fam, int m, int a, int b) { dispatch<Small>(n, fam, m, a, b); }
#endif
// integers and floating-point numbers, ascending and descending: the specialised exchanges must keep the multiset of values
template<class T> T any_val(); 
template<> int8_t any_val() { return (int8_t)u8(); } template<> uint16_t any_val() { return u16(); } template<> bool any_val() { return u8() & 1; } template<> int64_t any_val() { return (int64_t)u64(); }
template<> float any_val() { uint32_t b = u32(); sym_assume((b & 0x7fffffffu) <= 0x7f800000u); float f; __builtin_memcpy(&f, &b, 4); return f; }
template<> double any_val() { uint64_t b = u64(); sym_assume((b & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); double f; __builtin_memcpy(&f, &b, 8); return f; }
template<class T, int N, class C> void val_one(C c, const T* in) {
    T* v = (T*)sym_malloc(sizeof(T) * N); for (int i = 0; i < N; ++i) v[i] = in[i];
    sym_eager(1); fs<N>{}(v, v + N, c); sym_eager(0);
    int ok = sym_perm(v, in, N, sizeof(T)); sym_assert(ok, "the array is not a permutation of its input");
    ok = 1; for (int i = 0; i + 1 < N; ++i) ok &= !c(v[i + 1], v[i]); sym_assert(ok, "the array is not sorted");
    for (int i = 0; i < N; ++i) { uint64_t o = 0; __builtin_memcpy(&o, v + i, sizeof(T)); sym_observe(o); } sym_free(v);
}
template<class T, int N> void val_all(int desc) { T in[N + 1]; for (int i = 0; i < N; ++i) in[i] = any_val<T>(); if (desc) val_one<T, N>(std::greater<>{}, in); else val_one<T, N>(std::less<>{}, in); }
template<int N> struct Vals { static void run(int ty, int desc, int, int) { if constexpr (N <= 8) { switch (ty) {
    case 0: val_all<int8_t, N>(desc); break; case 1: val_all<uint16_t, N>(desc); break; case 2: val_all<bool, N>(desc); break; case 3: val_all<int64_t, N>(desc); break; case 4: val_all<float, N>(desc); break; default: val_all<double, N>(desc); } } } };
extern "C" void e_vals(int n, int ty, int desc) { dispatch<Vals>(n, ty, desc, 0, 0); }

// operation totals over all orders of distinct keys (C07): summed over the paths by the engine, one path per order
struct Cnt { uint8_t key; Cnt() : key(0) {} Cnt(Cnt&& o) : key(o.key) { ++ops.moves; } Cnt& operator=(Cnt&& o) { ++ops.moves; key = o.key; return *this; } void use() const {} };
template<int N> void total_one(const uint8_t* q) {
    Cnt v[N + 1]; for (int i = 0; i < N; ++i) v[i].key = q[i]; ops = Ops();
    sym_eager(1); fs<N>{}(v, v + N, KeyLess{}); sym_eager(0);
    int ok = 1; for (int i = 0; i < N; ++i) ok &= v[i].key == (unsigned)i; sym_assert(ok, "the array is not sorted");
}
template<int N> struct Total { static void run(int, int, int, int) {
    uint8_t q[N + 1]; if (N) sym_bytes(q, N); int ok = 1; for (int i = 0; i < N; ++i) { ok &= q[i] < N; for (int j = 0; j < i; ++j) ok &= q[i] != q[j]; } sym_assume(ok);
    total_one<N>(q); sym_observe(ops.comps); sym_observe(ops.moves);
    sym_count(0, ops.comps); sym_count(1, ops.moves); sym_count(2, 1);
} };
extern "C" void e_total(int n) { dispatch<Total>(n, 0, 0, 0, 0); }
#include <algorithm>
// the replay of a total: every order, natively
template<int N> struct Sum { static void run(int wc, int wm, int, int) {
    uint8_t q[N + 1]; for (int i = 0; i < N; ++i) q[i] = i; long c = 0, m = 0;
    do { total_one<N>(q); c += ops.comps; m += ops.moves; } while (std::next_permutation(q, q + N));
    if (wc >= 0) sym_assert(c <= wc, "more comparisons over all orders than documented"); if (wm >= 0) sym_assert(m <= wm, "more moves over all orders than documented");
} };
extern "C" void e_sum(int n, int wc, int wm) { dispatch<Sum>(n, wc, wm, 0, 0); }
// C++20: the comparison functions and the identity of the standard library
#ifdef __cpp_lib_ranges
template<class T, int N, class C, class... P> void val20(const T* in, C c, P... p) {
    T v[N + 1]; for (int i = 0; i < N; ++i) v[i] = in[i];
    sym_eager(1); fs<N>{}(v, v + N, c, p...); sym_eager(0);
    int ok = sym_perm(v, in, N, sizeof(T)); sym_assert(ok, "the array is not a permutation of its input");
    ok = 1; for (int i = 0; i + 1 < N; ++i) ok &= !c(v[i + 1], v[i]); sym_assert(ok, "the array is not sorted");
    for (int i = 0; i < N; ++i) { uint64_t o = 0; __builtin_memcpy(&o, v + i, sizeof(T)); sym_observe(o); }
}
template<class T, int N> void val20_all(int form) {
    T in[N + 1]; for (int i = 0; i < N; ++i) in[i] = any_val<T>();
    cppsort::utility::identity ui{}; std::identity si{}; std::ranges::less rl{}; std::ranges::greater rg{}; std::less<> l{}; std::greater<> g{};
    switch (form) { case 0: val20<T, N>(in, rl); break; case 1: val20<T, N>(in, rg); break; case 2: val20<T, N>(in, rl, si); break; case 3: val20<T, N>(in, rg, si); break;
        case 4: val20<T, N>(in, rl, ui); break; case 5: val20<T, N>(in, rg, ui); break; case 6: val20<T, N>(in, l, si); break; default: val20<T, N>(in, g, si); }
}
template<int N> struct Vals20 { static void run(int ty, int form, int, int) { if constexpr (N <= 8) { switch (ty) { case 0: val20_all<uint16_t, N>(form); break; case 1: val20_all<int64_t, N>(form); break; default: val20_all<double, N>(form); } } } };
extern "C" void e_vals20(int n, int ty, int form) { dispatch<Vals20>(n, ty, form, 0, 0); }
#endif
