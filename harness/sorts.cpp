// One sorter per translation unit: -DHDR='"cpp-sort/sorters/x_sorter.h"' -DSORTER=cppsort::x_sorter -DCAT=0|1|2 -DMODE=1..19
// Entry arguments: n, fam, m, shape, pat, seed (see fill_keys)
#include "common.h"
#ifndef MODE
#define MODE 1
#endif
#include HDR
#ifdef HDR2
#include HDR2
#endif
#ifdef HDR3
#include HDR3
#endif
#ifdef HDR4
#include HDR4
#endif
using namespace vrt;
using sorter_t = SORTER;

template<class T> struct Range {          // exactly-sized storage, so that any access beside it is an error
    T* p; int n;
    Range(const std::vector<uint32_t>& k) : p((T*)sym_malloc(sizeof(T) * k.size())), n((int)k.size()) { for (int i = 0; i < n; ++i) new (p + i) T(k[i], i); }
    ~Range() { for (int i = 0; i < n; ++i) p[i].~T(); sym_free(p); }
};
// the tags are concrete on every path, so that the permutation is known and only the order needs the solver
template<class T> int perm_ok(const T* p, int n, const std::vector<uint32_t>& k) {
    std::vector<uint8_t> seen(n); int ok = 1;
    for (int i = 0; i < n; ++i) {
        unsigned t = p[i].tag; sym_observe(t);
        if (t >= (unsigned)n) sym_fail("the range holds a moved-from or foreign element after the call");
        if (seen[t]++) sym_fail("an element was lost: the range is not a permutation of the input");
        ok &= p[i].key == k[t];
    }
    return ok;
}
template<class T> int key_sorted(const T* p, int n, bool desc = false) { int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= desc ? !(p[i + 1].key > p[i].key) : !(p[i + 1].key < p[i].key); return ok; }

#if MODE == 1
template<template<class> class I, bool Proj, class Comp> void sorts(int n, int f, int m, int s, int p, int sd, bool desc, Comp comp) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    { Range<Mov> v(k); using It = I<Mov>; sym_eager(1);
      if constexpr (Proj) sorter_t{}(It(v.p), It(v.p + n), comp, &Mov::key); else sorter_t{}(It(v.p), It(v.p + n), comp);
      sym_eager(0);
      int ok = perm_ok(v.p, n, k); sym_assert(ok, "an element's key changed");
      sym_assert(key_sorted(v.p, n, desc), "the range is not sorted"); }
}
template<class Comp> void ints(int n, int f, int m, int s, int p, int sd, bool desc, Comp comp) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    uint32_t* v = (uint32_t*)sym_malloc(4 * n + 1); for (int i = 0; i < n; ++i) v[i] = k[i];
    sym_eager(1); sorter_t{}(v, v + n, comp); sym_eager(0);
    sym_assert(sym_perm(v, k.data(), n, 4), "an element was lost: the range is not a permutation of the input");
    int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= desc ? v[i + 1] <= v[i] : v[i + 1] >= v[i];
    sym_assert(ok, "the range is not sorted"); for (int i = 0; i < n; ++i) sym_observe(v[i]);
    sym_free(v);
}
extern "C" void e_fwd(int n, int f, int m, int s, int p, int sd) {
#if CAT == 0
    sorts<Fwd, true>(n, f, m, s, p, sd, true, std::greater<>{});
#endif
}
extern "C" void e_bid(int n, int f, int m, int s, int p, int sd) {
#if CAT <= 1
    sorts<Bid, true>(n, f, m, s, p, sd, true, std::greater<>{});
#endif
}
template<class T> using Ptr = T*;
extern "C" void e_ra(int n, int f, int m, int s, int p, int sd) { sorts<Ptr, false>(n, f, m, s, p, sd, false, KeyLess{}); }
extern "C" void e_rap(int n, int f, int m, int s, int p, int sd) { sorts<Ra, true>(n, f, m, s, p, sd, true, std::greater<>{}); }
extern "C" void e_int(int n, int f, int m, int s, int p, int sd) { ints(n, f, m, s, p, sd, false, std::less<>{}); }
extern "C" void e_intg(int n, int f, int m, int s, int p, int sd) { ints(n, f, m, s, p, sd, true, std::greater<>{}); }
#endif

#if MODE == 1
struct AdvLess { Adversary* a; bool operator()(const Mov& x, const Mov& y) const { return a->less(x.tag, y.tag); } };
extern "C" void e_adv(int n, int f, int m, int s, int p, int sd) {
    std::vector<uint32_t> k(n); for (int i = 0; i < n; ++i) k[i] = i; Adversary a; a.init(n, m);
    { Range<Mov> v(k); sym_eager(1); sorter_t{}(v.p, v.p + n, AdvLess{&a}); sym_eager(0);
      sym_assert(perm_ok(v.p, n, k), "an element's key changed"); int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= a.val[v.p[i].tag] <= a.val[v.p[i + 1].tag];
      sym_assert(ok, "the range is not sorted"); }
}
#endif
#if MODE == 3
struct AdvLess { Adversary* a; bool operator()(const Tracked& x, const Tracked& y) const { x.use(); y.use(); return a->less(x.tag, y.tag); } };
extern "C" void e_adv(int n, int f, int m, int s, int p, int sd) {
    std::vector<uint32_t> k(n); for (int i = 0; i < n; ++i) k[i] = i; Adversary a; a.init(n, m); g_alive = 0;
    { Range<Tracked> v(k); size_t live = sym_live(); sym_eager(1); sorter_t{}(v.p, v.p + n, AdvLess{&a}); sym_eager(0);
      for (int i = 0; i < n; ++i) if (v.p[i].st != 1) sym_fail("a slot of the range holds no live element after the call");
      sym_assert(g_alive == n, "elements were leaked or destroyed twice"); sym_assert(sym_live() == live, "memory allocated by the sorter was not released"); }
}
#endif

#if MODE == 2
// stability: keys may be equal, positions break the ties
template<template<class> class I, bool Proj, class Comp> void stable(int n, int f, int m, int s, int p, int sd, bool desc, Comp comp) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    { Range<Mov> v(k); using It = I<Mov>; sym_eager(1);
      if constexpr (Proj) sorter_t{}(It(v.p), It(v.p + n), comp, &Mov::key); else sorter_t{}(It(v.p), It(v.p + n), comp);
      sym_eager(0);
      int ok = 1;
      for (int i = 0; i < n; ++i) { sym_observe(v.p[i].tag); if (v.p[i].tag >= n) sym_fail("the range holds a moved-from element after the call"); }
      for (int i = 0; i + 1 < n; ++i) if (v.p[i].tag >= v.p[i + 1].tag) ok &= desc ? v.p[i].key > v.p[i + 1].key : v.p[i].key < v.p[i + 1].key;
      sym_assert(ok, "two equivalent elements were reordered"); }
}
template<class T> using Ptr = T*;
extern "C" void e_fwd(int n, int f, int m, int s, int p, int sd) {
#if CAT == 0
    stable<Fwd, true>(n, f, m, s, p, sd, true, std::greater<>{});
#endif
}
extern "C" void e_bid(int n, int f, int m, int s, int p, int sd) {
#if CAT <= 1
    stable<Bid, false>(n, f, m, s, p, sd, false, KeyLess{});
#endif
}
extern "C" void e_ra(int n, int f, int m, int s, int p, int sd) { stable<Ptr, false>(n, f, m, s, p, sd, false, KeyLess{}); }
extern "C" void e_rap(int n, int f, int m, int s, int p, int sd) { stable<Ra, true>(n, f, m, s, p, sd, true, std::greater<>{}); }
#endif

#if MODE == 3
// every element tracked: lifecycle errors, accesses outside the range (memory model) and leaks
template<class T, template<class> class I, bool Proj> void life(int n, int f, int m, int s, int p, int sd) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    g_alive = 0;
    { Range<T> v(k); using It = I<T>; size_t live = sym_live(); sym_eager(1);
      if constexpr (Proj) sorter_t{}(It(v.p), It(v.p + n), IntLess{}, KeyProj{}); else sorter_t{}(It(v.p), It(v.p + n), KeyLess{});
      sym_eager(0);
      for (int i = 0; i < n; ++i) { sym_observe(v.p[i].tag); if (v.p[i].st != 1) sym_fail("a slot of the range holds no live element after the call"); }
      sym_assert(g_alive == n, "elements were leaked or destroyed twice");
      sym_assert(sym_live() == live, "memory allocated by the sorter was not released"); }
}
template<class T> using Ptr = T*;
extern "C" void e_fwd(int n, int f, int m, int s, int p, int sd) {
#if CAT == 0
    life<Tracked, Fwd, false>(n, f, m, s, p, sd);
#endif
}
extern "C" void e_bid(int n, int f, int m, int s, int p, int sd) {
#if CAT <= 1
    life<Tracked, Bid, false>(n, f, m, s, p, sd);
#endif
}
extern "C" void e_ra(int n, int f, int m, int s, int p, int sd) { life<Tracked, Ptr, false>(n, f, m, s, p, sd); }
extern "C" void e_rap(int n, int f, int m, int s, int p, int sd) { life<Tracked, Ra, true>(n, f, m, s, p, sd); }
extern "C" void e_copy(int n, int f, int m, int s, int p, int sd) { life<Copied, Ptr, false>(n, f, m, s, p, sd); }
// trivially copyable values: only the memory model judges
extern "C" void e_int(int n, int f, int m, int s, int p, int sd) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    uint32_t* v = (uint32_t*)sym_malloc(4 * n); for (int i = 0; i < n; ++i) v[i] = k[i];
    size_t live = sym_live(); sym_eager(1); sorter_t{}(v, v + n); sym_eager(0);
    for (int i = 0; i < n; ++i) sym_observe(v[i]);
    sym_assert(sym_live() == live, "memory allocated by the sorter was not released"); sym_free(v);
}
#endif

#if MODE == 4
// the `at`-th user operation throws, for every `at`
template<class T, template<class> class I, bool Proj> void throws(int n, int f, int m, int s, int p, int sd, unsigned kinds) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    uint16_t at = u16();
    { g_alive = 0; Range<T> v(k); using It = I<T>; size_t live = sym_live(); bool caught = false, other = false;
      ops = Ops(); ops.at = at; ops.kinds = kinds; ops.armed = true; sym_eager(1);
      try { if constexpr (Proj) sorter_t{}(It(v.p), It(v.p + n), IntLess{}, KeyProj{}); else sorter_t{}(It(v.p), It(v.p + n), KeyLess{}); }
      catch (Boom& b) { caught = b.id == 42; } catch (...) { other = true; }
      sym_eager(0); ops.armed = false;
      sym_assert(!other && caught == ops.fired, "the exception thrown by the user's operation did not reach the caller unchanged");
      for (int i = 0; i < n; ++i) { sym_observe(v.p[i].tag); if (v.p[i].st != 1 && v.p[i].st != 2) sym_fail("a slot of the range holds no object after the exception"); }
      sym_assert(g_alive == n, "elements were leaked or destroyed twice");
      sym_assert(sym_live() == live, "memory was leaked when the exception left the sorter"); sym_observe(caught); }
}
template<class T> using Ptr = T*;
extern "C" void e_fwd(int n, int f, int m, int s, int p, int sd, int kinds) {
#if CAT == 0
    throws<Tracked, Fwd, false>(n, f, m, s, p, sd, kinds);
#endif
}
extern "C" void e_bid(int n, int f, int m, int s, int p, int sd, int kinds) {
#if CAT <= 1
    throws<Tracked, Bid, false>(n, f, m, s, p, sd, kinds);
#endif
}
extern "C" void e_ra(int n, int f, int m, int s, int p, int sd, int kinds) { throws<Tracked, Ptr, false>(n, f, m, s, p, sd, kinds); }
extern "C" void e_rap(int n, int f, int m, int s, int p, int sd, int kinds) { throws<Tracked, Ra, true>(n, f, m, s, p, sd, kinds); }
#endif

#if MODE == 5
// allocation number `at` fails (and, if persist, every later one)
template<class T, template<class> class I> void starve(int n, int f, int m, int s, int p, int sd, int tolerant, int stab) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    uint8_t at = u8(), persist = below(2);
    { g_alive = 0; Range<T> v(k); using It = I<T>; size_t live = sym_live(); bool caught = false, other = false;
      g_alloc = AllocState(); g_alloc.fail_at = at; g_alloc.persist = persist; g_alloc.armed = true; sym_eager(1);
      try { sorter_t{}(It(v.p), It(v.p + n), KeyLess{}); } catch (std::bad_alloc&) { caught = true; } catch (...) { other = true; }
      sym_eager(0); g_alloc.armed = false;
      sym_assert(!other, "an exception other than std::bad_alloc left the sorter");
      if (!g_alloc.failed) sym_assert(!caught, "std::bad_alloc although no allocation failed");
      if (tolerant) sym_assert(!caught, "the sorter is documented to work when memory is exhausted");
      for (int i = 0; i < n; ++i) { sym_observe(v.p[i].tag); if (v.p[i].st != 1 && v.p[i].st != 2) sym_fail("a slot of the range holds no object after the allocation failure"); }
      sym_assert(g_alive == n, "elements were leaked or destroyed twice");
      if (!caught) { int ok = perm_ok(v.p, n, k); for (int i = 0; i < n; ++i) if (v.p[i].st != 1) sym_fail("moved-from element after a successful call"); sym_assert(ok & key_sorted(v.p, n), "the call succeeded but the range is not sorted");
          if (stab) { int st = 1; for (int i = 0; i + 1 < n; ++i) if (v.p[i].tag >= v.p[i + 1].tag) st &= v.p[i].key < v.p[i + 1].key; sym_assert(st, "the call succeeded but a stable sorter reordered equivalent elements"); } }
      sym_assert(sym_live() == live, "memory was leaked after the allocation failure"); sym_observe(caught); }
}
template<class T> using Ptr = T*;
extern "C" void e_fwd(int n, int f, int m, int s, int p, int sd, int tol, int stab) {
#if CAT == 0
    starve<Tracked, Fwd>(n, f, m, s, p, sd, tol, stab);
#endif
}
extern "C" void e_bid(int n, int f, int m, int s, int p, int sd, int tol, int stab) {
#if CAT <= 1
    starve<Tracked, Bid>(n, f, m, s, p, sd, tol, stab);
#endif
}
extern "C" void e_ra(int n, int f, int m, int s, int p, int sd, int tol, int stab) { starve<Tracked, Ptr>(n, f, m, s, p, sd, tol, stab); }
#endif
