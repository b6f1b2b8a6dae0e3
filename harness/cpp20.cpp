// What the library adds under C++20: std::ranges::less, std::ranges::greater and std::identity, and the ranges of the standard library.
// -DHDR, -DSORTER, -DCAT (a sorter of the table), compiled with -std=c++20
#include "common.h"
#include <functional>
#include <ranges>
#include <span>
#include HDR
#ifdef HDR2
#include HDR2
#endif
#ifdef HDR3
#include HDR3
#endif
#ifdef HDR4
#include HDR4
#endif
#include <cpp-sort/utility/functional.h>
#ifndef __cpp_lib_ranges
#error the harness needs the ranges library
#endif
using namespace vrt;
namespace vrt {
    inline bool operator<(const Mov& a, const Mov& b) { return a.key < b.key; } inline bool operator>(const Mov& a, const Mov& b) { return a.key > b.key; }
    inline bool operator<=(const Mov& a, const Mov& b) { return a.key <= b.key; } inline bool operator>=(const Mov& a, const Mov& b) { return a.key >= b.key; }
    inline bool operator==(const Mov& a, const Mov& b) { return a.key == b.key; } inline bool operator!=(const Mov& a, const Mov& b) { return a.key != b.key; }
}
#if CAT == 0
template<class T> using I = Fwd<T>;
#elif CAT == 1
template<class T> using I = Bid<T>;
#else
template<class T> using I = Ra<T>;
#endif
using sorter_t = SORTER;
static std::vector<uint32_t> g_k;
template<class F> void ints(bool desc, F f) {
    int n = (int)g_k.size(); uint32_t* v = (uint32_t*)sym_malloc(4 * n); for (int i = 0; i < n; ++i) v[i] = g_k[i];
    sym_eager(1); f(v, v + n); sym_eager(0);
    sym_assert(sym_perm(v, g_k.data(), n, 4), "the range is not a permutation of the input");
    int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= desc ? v[i] >= v[i + 1] : v[i] <= v[i + 1]; sym_assert(ok, "the range is not sorted as asked");
    for (int i = 0; i < n; ++i) sym_observe(v[i]); sym_free(v);
}
template<class F> void objs(bool desc, F f) {
    int n = (int)g_k.size(); Mov* p = (Mov*)sym_malloc(sizeof(Mov) * n); for (int i = 0; i < n; ++i) new (p + i) Mov(g_k[i], i);
    sym_eager(1); f(p, p + n); sym_eager(0);
    std::vector<uint8_t> seen(n); int ok = 1;
    for (int i = 0; i < n; ++i) { unsigned t = p[i].tag; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of the input"); ok &= p[i].key == g_k[t]; if (i) ok &= desc ? p[i - 1].key >= p[i].key : p[i - 1].key <= p[i].key; }
    sym_assert(ok, "the range is not sorted as asked"); for (int i = 0; i < n; ++i) p[i].~Mov(); sym_free(p);
}
static constexpr std::ranges::less rl{}; static constexpr std::ranges::greater rg{}; static constexpr std::identity sid{}; static constexpr cppsort::utility::identity uid{};
extern "C" void e_r20(int which, int n, int f, int m, int s, int p, int sd) {
    fill_keys(g_k, n, f, m, s, p, sd); const sorter_t so{}; using U = I<uint32_t>; using M = I<Mov>; using P = uint32_t*;
    switch (which) {
    case 0: ints(false, [&](P b, P e) { so(U(b), U(e), rl); }); ints(true, [&](P b, P e) { so(U(b), U(e), rg); }); break;
    case 1: ints(false, [&](P b, P e) { so(U(b), U(e), rl, sid); }); ints(true, [&](P b, P e) { so(U(b), U(e), rg, sid); }); break;
    case 2: ints(false, [&](P b, P e) { so(U(b), U(e), rl, uid); }); ints(true, [&](P b, P e) { so(b, e, rg, uid); }); break;
    case 3: ints(false, [&](P b, P e) { so(U(b), U(e), sid); }); ints(true, [&](P b, P e) { so(U(b), U(e), std::greater<>{}, sid); }); ints(false, [&](P b, P e) { so(b, e, std::less<>{}, sid); }); break;
    case 4: ints(true, [&](P b, P e) { std::span<uint32_t> v(b, e); so(v, rg); }); ints(false, [&](P b, P e) { so(std::ranges::subrange(b, e), rl); }); ints(false, [&](P b, P e) { so(std::span<uint32_t>(b, e)); });
            ints(false, [&](P b, P e) { auto v = std::span<uint32_t>(b, e) | std::views::reverse; so(v, rg, sid); }); break;
    case 5: objs(false, [&](Mov* b, Mov* e) { so(M(b), M(e), rl); }); objs(true, [&](Mov* b, Mov* e) { so(M(b), M(e), rg, sid); }); break;
    case 6: objs(true, [&](Mov* b, Mov* e) { so(M(b), M(e), rg, &Mov::key); }); objs(false, [&](Mov* b, Mov* e) { so(M(b), M(e), rl, &Mov::key); }); break;
    case 7: objs(true, [&](Mov* b, Mov* e) { so(std::span<Mov>(b, e), rg, &Mov::key); }); objs(false, [&](Mov* b, Mov* e) { so(std::ranges::subrange(M(b), M(e)), [](const Mov& x) -> const uint32_t& { return x.key; }); }); break;
    }
}
