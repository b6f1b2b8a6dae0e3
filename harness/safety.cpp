// Safety of what sorts.cpp does not call: measures of presortedness and sorted views (KIND 1), the indirect adapter (KIND 2),
// type-specific sorters (KIND 3), apply_permutation (KIND 4). -DSMODE=3|4|5: plain run, a throwing operation, refused memory
#define MODE 0
#include "sorts.cpp"
#include <algorithm>
#if KIND == 4
#include <cpp-sort/utility/apply_permutation.h>
#endif
struct Proj64 { uint64_t operator()(const Tracked& a) const { a.use(); ++ops.projs; tick(K_PROJ); return (uint64_t)a.key << 20 | 5; } };
// the value of a measure, 0 for what is no measure
template<class R> int64_t value_of(const R& r) { if constexpr (std::is_arithmetic_v<R>) return (int64_t)r; else return 0; }
template<class It, bool P> int64_t call(It f, It l, const std::vector<ptrdiff_t>& idx) {
#if KIND == 4
    std::vector<ptrdiff_t> w(idx); cppsort::utility::apply_permutation(f, l, w.begin(), w.end()); return 0;
#elif KIND == 3
    if constexpr (P) (void)sorter_t{}(f, l, Proj64{}); else (void)sorter_t{}(f, l, KeyProj{}); return 0;
#elif KIND == 1
    if constexpr (P) return value_of(sorter_t{}(f, l, IntLess{}, KeyProj{})); else return value_of(sorter_t{}(f, l, KeyLess{}));
#else
    if constexpr (P) (void)sorter_t{}(f, l, IntLess{}, KeyProj{}); else (void)sorter_t{}(f, l, KeyLess{}); return 0;
#endif
}
template<template<class> class I, bool P> void safe(int n, int f, int m, int s, int p, int sd, unsigned kinds) {
    std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd);
    std::vector<ptrdiff_t> idx(KIND == 4 ? n : 0); { Rng r(n + sd * 77 + p); for (size_t i = 0; i < idx.size(); ++i) idx[i] = (ptrdiff_t)i; if (s != 1) for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below((unsigned)i)]); else if (!idx.empty()) std::rotate(idx.begin(), idx.begin() + n / 3, idx.end()); }
#if SMODE == 4
    uint16_t at = u16();
#elif SMODE == 5
    uint8_t at = u8(), persist = below(2);
#endif
    { g_alive = 0; Range<Tracked> v(k); using It = I<Tracked>; size_t live = sym_live(); bool boom = false, oom = false, other = false, fired = false; int64_t got = 0;
#if KIND == 1 && SMODE == 5
      sym_eager(1); int64_t expected = call<It, P>(It(v.p), It(v.p + n), idx); sym_eager(0);      // what the measure is with enough memory
#endif
      ops = Ops();
#if SMODE == 4
      ops.at = at; ops.kinds = kinds; ops.armed = true;
#elif SMODE == 5
      g_alloc = AllocState(); g_alloc.fail_at = at; g_alloc.persist = persist; g_alloc.armed = true;
#endif
      sym_eager(1);
      try { got = call<It, P>(It(v.p), It(v.p + n), idx); } catch (Boom& b) { boom = b.id == 42; } catch (std::bad_alloc&) { oom = true; } catch (...) { other = true; }
      sym_eager(0);
#if SMODE == 5
      g_alloc.armed = false; sym_assert(!other && !boom, "an exception other than std::bad_alloc was thrown"); if (!g_alloc.failed) sym_assert(!oom, "std::bad_alloc although no allocation failed");
#if KIND == 1
      if (!oom) sym_assert(got == expected, "the measure depends on how much memory there is"); sym_observe((uint64_t)got);
#endif
#ifdef TOL
      sym_assert(!oom, "std::bad_alloc from a measure documented to do without memory");
#endif
#else
      fired = ops.fired; ops.armed = false; sym_assert(!other && !oom && boom == fired, "the exception thrown by the user's operation did not reach the caller unchanged");
#endif
      bool left = boom || oom;
      if (KIND == 1 || KIND == 2 && left && !(kinds & K_MOVE)) {
          if (ops.moves) sym_fail("elements were moved by a call that must leave the collection untouched");
          int ok = 1; for (int i = 0; i < n; ++i) { if (v.p[i].tag != i || v.p[i].st != 1) sym_fail("the collection was changed by a call that must leave it untouched"); ok &= v.p[i].key == k[i]; } sym_assert(ok, "an element was changed by a call that must leave it untouched");
      } else if (left) {
          for (int i = 0; i < n; ++i) { sym_observe(v.p[i].tag); if (v.p[i].st != 1 && v.p[i].st != 2) sym_fail("a slot of the range holds no object after the exception"); }
      } else {
          int ok = perm_ok(v.p, n, k); for (int i = 0; i < n; ++i) if (v.p[i].st != 1) sym_fail("a slot of the range holds no live element after the call");
          sym_assert(ok, "an element's key changed");
          if (KIND == 4) { for (int i = 0; i < n; ++i) if (v.p[i].tag != idx[i]) sym_fail("the permutation was not applied"); } else sym_assert(key_sorted(v.p, n), "the range is not sorted");
      }
      sym_assert(g_alive == n, "elements were leaked or destroyed twice"); sym_assert(sym_live() == live, "memory was leaked"); sym_observe(left); }
    if (g_alive) sym_fail("elements were leaked or destroyed twice");
}
template<class T> using Ptr = T*;
#define ARGS int n, int f, int m, int s, int p, int sd, int kinds
#define PASS n, f, m, s, p, sd, kinds
extern "C" void e_ra(ARGS) { safe<Ptr, false>(PASS); }
extern "C" void e_rap(ARGS) { safe<Ra, true>(PASS); }
#if CAT <= 1
extern "C" void e_bid(ARGS) { safe<Bid, false>(PASS); }
#endif
#if CAT == 0
extern "C" void e_fwd(ARGS) { safe<Fwd, false>(PASS); }
extern "C" void e_fwdp(ARGS) { safe<Fwd, true>(PASS); }
#endif
