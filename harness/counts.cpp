// C19: operations of one call against bounds computed by the check from the documented complexities.
// -DSORTER= -DCAT=0|1|2 -DHDR.. as in sorts.cpp. Entry arguments: n, fam, m, shape, pat, seed, then the largest
// numbers of comparisons, moves, iterator steps, bytes of heap, nested calls (0: not bounded).
#define VRT_NO_NEW
#include "common.h"
#include HDR
#ifdef HDR2
#include HDR2
#endif
#ifdef HDR3
#include HDR3
#endif
#ifdef HDR4
#include HDR4
#endif
extern "C" unsigned sym_depth();
using namespace vrt;
vrt::AllocState vrt::g_alloc; vrt::Ops vrt::ops; int vrt::g_alive;
static size_t g_heap, g_peak; static unsigned g_depth, g_base, g_steps, g_lim;
static void* get(size_t n) {                            // the size is kept in front of the block
    if (g_lim && n > g_lim) return nullptr;
    char* p = (char*)sym_malloc(n + 16); *(size_t*)p = n; g_heap += n; if (g_heap > g_peak) g_peak = g_heap; return p + 16;
}
static void put(void* q) { if (!q) return; char* p = (char*)q - 16; g_heap -= *(size_t*)p; sym_free(p); }
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

#ifdef PROBE
struct sorter_t { template<class I, class C> void operator()(I a, I b, C c) const { volatile long r = (long)cppsort::probe::PROBE(a, b, c); (void)r; } };
#else
using sorter_t = SORTER;
#endif
struct E {
    uint32_t key; uint16_t tag;
    E() : key(0), tag(0xffff) {} E(uint32_t k, unsigned t) : key(k), tag((uint16_t)t) {}
    E(E&& o) : key(o.key), tag(o.tag) { ++ops.moves; }
    E& operator=(E&& o) { key = o.key; tag = o.tag; ++ops.moves; return *this; }
    E(const E&) = delete; E& operator=(const E&) = delete; ~E() {}
    friend void swap(E& a, E& b) { ops.moves += 3; std::swap(a.key, b.key); std::swap(a.tag, b.tag); }
};
static void depth() { unsigned d = sym_depth(); if (d > g_depth) g_depth = d; }
struct Less { bool operator()(const E& a, const E& b) const { ++ops.comps; depth(); return a.key < b.key; } };
struct AdvLess { Adversary* a; bool operator()(const E& x, const E& y) const { ++ops.comps; depth(); return a->less(x.tag, y.tag); } };
template<class T, class Cat> struct CI {
    using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    T* p = nullptr;
    CI() = default; explicit CI(T* q) : p(q) {}
    T& operator*() const { return *p; } T* operator->() const { return p; }
    CI& operator++() { ++g_steps; ++p; return *this; } CI operator++(int) { ++g_steps; CI r = *this; ++p; return r; }
#define BID template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C>::value>>
#define RAN template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>>
    BID CI& operator--() { ++g_steps; --p; return *this; } BID CI operator--(int) { ++g_steps; CI r = *this; --p; return r; }
    friend bool operator==(const CI& a, const CI& b) { return a.p == b.p; } friend bool operator!=(const CI& a, const CI& b) { return a.p != b.p; }
    RAN CI& operator+=(difference_type d) { ++g_steps; p += d; return *this; } RAN CI& operator-=(difference_type d) { ++g_steps; p -= d; return *this; }
    RAN T& operator[](difference_type d) const { return p[d]; }
    RAN friend CI operator+(CI a, difference_type d) { ++g_steps; a.p += d; return a; } RAN friend CI operator+(difference_type d, CI a) { ++g_steps; a.p += d; return a; }
    RAN friend CI operator-(CI a, difference_type d) { ++g_steps; a.p -= d; return a; } RAN friend difference_type operator-(const CI& a, const CI& b) { return a.p - b.p; }
    RAN friend bool operator<(const CI& a, const CI& b) { return a.p < b.p; } RAN friend bool operator>(const CI& a, const CI& b) { return a.p > b.p; }
    RAN friend bool operator<=(const CI& a, const CI& b) { return a.p <= b.p; } RAN friend bool operator>=(const CI& a, const CI& b) { return a.p >= b.p; }
};
// fam 3: presorted inputs, `shape` the kind, m symbolic values; fam 4: the adversary with m free choices
static void presorted(std::vector<uint32_t>& k, int n, int m, int kind, int pat, unsigned seed) {
    k.resize(n); Rng r(seed + n); uint8_t lev[16]; sym_bytes(lev, m);
    if (kind <= 1) for (int j = 0; j + 1 < m; ++j) sym_assume(lev[j] <= lev[j + 1]);
    if (kind == 2 || kind == 3) for (int j = 0; j + 1 < m; ++j) sym_assume(lev[j] > lev[j + 1]);
    for (int i = 0; i < n; ++i) {
        uint32_t l = (uint32_t)lev[(long)i * m / n] << 16;
        switch (kind) {
        case 0: k[i] = l | i; break;                                        // strictly ascending
        case 1: k[i] = l | i / (pat + 2); break;                            // ascending with ties
        case 2: k[i] = l | (n - i); break;                                  // strictly descending
        case 3: k[i] = l | (n - i) / (pat + 2); break;                      // descending with ties
        case 4: k[i] = lev[0]; break;                                       // equal
        case 5: k[i] = l | i; break;                                        // m ascending runs, in any order
        case 6: k[i] = l | (((long)i * m / n) & 1 ? n - i : i); break;      // m runs, ascending and descending
        case 7: k[i] = 4 * i + 2; break;                                    // m displaced elements
        }
    }
    if (kind == 7) for (int j = 0; j < m; ++j) { uint8_t b = lev[j]; sym_assume(b < 8); k[pat == 0 ? (long)n * (2 * j + 1) / (2 * m) : r.below(n)] = (uint32_t)b * (4 * n / 8) + 1; }
}
static void bounds(int n, long c, long mv, long st, long hp, long dp) {
    sym_count(0, ops.comps); sym_count(1, ops.moves); sym_count(2, g_steps); sym_count(3, g_peak); sym_count(4, g_depth - g_base);
    if (c) sym_assert(ops.comps <= (unsigned)c, "more comparisons than the documented complexity allows");
    if (mv) sym_assert(ops.moves <= (unsigned)mv, "more moves than the documented complexity allows");
    if (st) sym_assert(g_steps <= (unsigned)st, "more iterator steps than the documented complexity allows");
    if (hp) sym_assert(g_peak <= (size_t)hp, "more memory than the documented complexity allows");
    if (dp) sym_assert((int)(g_depth - g_base) <= dp, "deeper recursion than the documented complexity allows");
}
template<class I> void run(int n, int f, int m, int s, int p, int sd, long c, long mv, long st, long hp, long dp) {
    std::vector<uint32_t> k; Adversary a;
    g_lim = 0;
    if (f == 4) { k.assign(n, 0); a.init(n, m); } else if (f == 3) presorted(k, n, m, s, p, sd); else fill_keys(k, n, f, m, s, p, sd);
    E* v = (E*)sym_malloc(sizeof(E) * n); for (int i = 0; i < n; ++i) new (v + i) E(k[i], i);
    g_peak = g_heap; size_t h0 = g_heap; g_depth = g_base = sym_depth(); ops = Ops{}; g_steps = 0; if (hp < 0) g_lim = (unsigned)-hp;      // no memory at all
    sym_eager(1);
    if (f == 4) sorter_t{}(I(v), I(v + n), AdvLess{&a}); else sorter_t{}(I(v), I(v + n), Less{});
    sym_eager(0); g_lim = 0; g_peak -= h0;
#ifndef PROBE
    if (f != 4) { int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= v[i].key <= v[i + 1].key; sym_assert(ok, "the range is not sorted"); }
    else { int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= a.val[v[i].tag] <= a.val[v[i + 1].tag]; sym_assert(ok, "the range is not sorted"); }
#endif
    bounds(n, c, mv, st, hp < 0 ? 0 : hp, dp); sym_free(v);
}
#define ARGS int n, int f, int m, int s, int p, int sd, long c, long mv, long st, long hp, long dp
extern "C" void e_fwd(ARGS) {
#if CAT == 0
    run<CI<E, std::forward_iterator_tag>>(n, f, m, s, p, sd, c, mv, st, hp, dp);
#endif
}
extern "C" void e_bid(ARGS) {
#if CAT <= 1
    run<CI<E, std::bidirectional_iterator_tag>>(n, f, m, s, p, sd, c, mv, st, hp, dp);
#endif
}
extern "C" void e_ra(ARGS) { run<CI<E, std::random_access_iterator_tag>>(n, f, m, s, p, sd, c, mv, st, hp, dp); }

#ifdef LISTS
#include <cpp-sort/adapters/container_aware_adapter.h>
template<class L> void lists(int n, int f, int m, int s, int p, int sd, long c, long mv, long hp, long dp) {
    std::vector<uint32_t> k; Adversary a; g_lim = 0;
    if (f == 4) { k.assign(n, 0); a.init(n, m); } else if (f == 3) presorted(k, n, m, s, p, sd); else fill_keys(k, n, f, m, s, p, sd);
    L l; for (int i = n; i-- > 0;) l.emplace_front(k[i], i);
    size_t h0 = g_heap; g_peak = g_heap; g_depth = g_base = sym_depth(); ops = Ops{}; g_steps = 0;
    cppsort::container_aware_adapter<sorter_t> srt; sym_eager(1);
    if (f == 4) srt(l, AdvLess{&a}); else srt(l, Less{});
    sym_eager(0); g_peak -= h0; int ok = 1;
    for (auto i = l.begin(), j = i; i != l.end(); j = i++) if (i != j) ok &= f == 4 ? a.val[j->tag] <= a.val[i->tag] : j->key <= i->key;
    sym_assert(ok, "the list is not sorted"); bounds(n, c, mv, 0, hp, dp);
}
extern "C" void e_list(ARGS) { lists<std::list<E>>(n, f, m, s, p, sd, c, mv, hp, dp); }
extern "C" void e_flist(ARGS) { lists<std::forward_list<E>>(n, f, m, s, p, sd, c, mv, hp, dp); }
#endif
