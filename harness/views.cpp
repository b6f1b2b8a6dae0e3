// sorted_indices, sorted_iterators, apply_permutation, is_stable. -DPART=8..10 -DG=0..NG-1
#include "adapters.cpp"
#include <list>
#include <forward_list>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/refined.h>
namespace ut = cs::utility;
#ifndef NG
#define NG 4
#endif
using H = cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>;         // stable for forward and bidirectional iterators only
using S = cs::self_sort_adapter<cs::quick_sorter>;                       // stable when it calls list::sort only
struct KeyGet { template<class A> const uint32_t& operator()(const A& a) const { a.use(); return a.key; } };

// any range: the elements in order, and whether it still is what it was
template<class C> struct Held {
    C c; std::vector<uint32_t> k; std::vector<const Tracked*> at;
    Held(FAM) { fill_keys(k, FAMA); fill(c, n); int i = 0; for (auto& e : c) at.push_back(&e), ++i; ops = Ops{}; }
    void fill(std::list<Tracked>& l, int n) { for (int i = 0; i < n; ++i) l.emplace_back(k[i], i); }
    void fill(std::forward_list<Tracked>& l, int n) { for (int i = n; i-- > 0;) l.emplace_front(k[i], i); }
    void fill(std::vector<Tracked>& l, int n) { l.reserve(n); for (int i = 0; i < n; ++i) l.emplace_back(k[i], i); }
    void untouched() const {
        if (ops.moves || ops.copies) sym_fail("elements were moved");
        int i = 0, ok = 1; for (auto& e : c) { if (&e != at[i] || e.tag != i) sym_fail("the collection was reordered"); ok &= e.key == k[i]; ++i; }
        if (i != (int)k.size()) sym_fail("the collection changed its size"); sym_assert(ok, "the collection was changed");
    }
};
// t[i]: position of the element that is i-th in the result
inline void verdict(const std::vector<uint32_t>& k, const std::vector<unsigned>& t, bool desc, bool stable) {
    int n = (int)k.size(), ok = 1; std::vector<uint8_t> seen(n); if ((int)t.size() != n) sym_fail("the result has another size than the collection");
    for (int i = 0; i < n; ++i) { sym_observe(t[i]); if (t[i] >= (unsigned)n || seen[t[i]]++) sym_fail("the result does not hold every position once"); }
    for (int i = 0; i + 1 < n; ++i) { uint32_t a = k[t[i]], b = k[t[i + 1]]; ok &= desc ? a >= b : a <= b; if (stable && t[i] > t[i + 1]) ok &= a != b; }
    sym_assert(ok, "the result is not in sorted order as documented");
}
template<class F, class... A> constexpr bool claims = cs::is_stable_v<F(A...)>;

#if PART == 8
template<class Sorter, class C, bool Const> void iters(FAM, int form) {
    {
        Held<C> h(FAMA); using R = std::conditional_t<Const, const C, C>; R& r = h.c; using It = decltype(r.begin());
        ut::sorted_iterators<Sorter> get; using X = decltype(get); std::vector<It> res; bool desc = false, stable = false;
        sym_eager(1);
        switch (form) {
        case 0: res = get(r, KeyLess{}); stable = claims<X, R&, KeyLess>; break;
        case 1: res = get(r.begin(), r.end(), KeyGreater{}); stable = claims<X, It, It, KeyGreater>; desc = true; break;
        case 2: res = get(r, KeyProj{}); stable = claims<X, R&, KeyProj>; break;
        case 3: res = get(r.begin(), r.end(), IntLess{}, &Tracked::key); stable = claims<X, It, It, IntLess, uint32_t Tracked::*>; break;
        case 4: res = get(r, std::greater<>{}, KeyGet{}); stable = claims<X, R&, std::greater<>, KeyGet>; desc = true; break;
        case 5: res = get(r.begin(), r.end(), &Tracked::key); stable = claims<X, It, It, uint32_t Tracked::*>; break;
        }
        sym_eager(0); std::vector<unsigned> t; for (auto it : res) t.push_back(it->tag);
        h.untouched(); verdict(h.k, t, desc, stable);
        int i = 0; for (auto it = r.begin(); it != r.end(); ++it) { bool in = false; for (auto& x : res) in |= x == it; if (!in) sym_fail("an iterator of the collection is missing"); ++i; }
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
#define RANGES(S) case 0: iters<S, std::list<Tracked>, false>(FAMA, form); break; case 1: iters<S, std::forward_list<Tracked>, true>(FAMA, form); break; \
    case 2: iters<S, std::vector<Tracked>, false>(FAMA, form); break; case 3: iters<S, std::vector<Tracked>, true>(FAMA, form); break;
#define SORTER(i, ...) case i: if constexpr (i % NG == GG) { using Q = __VA_ARGS__; switch (range) { RANGES(Q) } } break;
template<int GG> void do_iters(int which, int range, int form, FAM) {
    switch (which) {
    SORTER(0, cs::merge_sorter) SORTER(1, H) SORTER(2, S) SORTER(3, cs::quick_sorter) SORTER(4, cs::pdq_sorter) SORTER(5, cs::stable_adapter<cs::heap_sorter>) SORTER(6, cs::insertion_sorter) SORTER(7, cs::spin_sorter)
    SORTER(8, cs::verge_sorter) SORTER(9, cs::out_of_place_adapter<cs::heap_sorter>)
    }
}
extern "C" void e_iters(int which, int range, int form, FAM) { do_iters<G>(which, range, form, FAMA); }
#endif
#if PART == 9
template<class Sorter, class C, bool Const> void indices(FAM, int form) {
    {
        Held<C> h(FAMA); using R = std::conditional_t<Const, const C, C>; R& r = h.c; using It = decltype(r.begin());
        ut::sorted_indices<Sorter> get; using X = decltype(get); std::vector<ptrdiff_t> res; bool desc = false, stable = false;
        sym_eager(1);
        switch (form) {
        case 0: res = get(r, KeyLess{}); stable = claims<X, R&, KeyLess>; break;
        case 1: res = get(r.begin(), r.end(), KeyGreater{}); stable = claims<X, It, It, KeyGreater>; desc = true; break;
        case 2: res = get(r, KeyProj{}); stable = claims<X, R&, KeyProj>; break;
        case 3: res = get(r.begin(), r.end(), IntLess{}, &Tracked::key); stable = claims<X, It, It, IntLess, uint32_t Tracked::*>; break;
        case 4: res = get(r, std::greater<>{}, KeyGet{}); stable = claims<X, R&, std::greater<>, KeyGet>; desc = true; break;
        case 5: res = get(r.begin(), r.end(), &Tracked::key); stable = claims<X, It, It, uint32_t Tracked::*>; break;
        }
        sym_eager(0); h.untouched(); std::vector<unsigned> t(res.begin(), res.end()); verdict(h.k, t, desc, stable);
        ut::apply_permutation(h.c, res); int i = 0; for (auto& e : h.c) { if (e.tag != t[i]) sym_fail("apply_permutation did not apply the sorted indices"); e.use(); ++i; }
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
#define RANGES(S) case 0: indices<S, std::vector<Tracked>, false>(FAMA, form); break; case 1: indices<S, std::vector<Tracked>, true>(FAMA, form); break;
#define SORTER(i, ...) case i: if constexpr (i % NG == GG) { using Q = __VA_ARGS__; switch (range) { RANGES(Q) } } break;
template<int GG> void do_indices(int which, int range, int form, FAM) {
    switch (which) {
    SORTER(0, cs::merge_sorter) SORTER(1, H) SORTER(2, S) SORTER(3, cs::quick_sorter) SORTER(4, cs::pdq_sorter) SORTER(5, cs::stable_adapter<cs::heap_sorter>) SORTER(6, cs::insertion_sorter) SORTER(7, cs::spin_sorter)
    SORTER(8, cs::verge_sorter) SORTER(9, cs::smooth_sorter) SORTER(10, cs::grail_sorter<>) SORTER(11, cs::split_sorter)
    }
}
extern "C" void e_indices(int which, int range, int form, FAM) { do_indices<G>(which, range, form, FAMA); }
// every permutation of n elements (base 0), or `m` free transpositions applied to a permutation of the given cycle structure
extern "C" void e_perm(int base, int n, int m, int form) {
    std::vector<uint8_t> q(n);
    if (base == 0) { if (n) sym_bytes(q.data(), n); for (int i = 0; i < n; ++i) { sym_assume(q[i] < n); for (int j = 0; j < i; ++j) sym_assume(q[i] != q[j]); } }
    else {
        for (int i = 0; i < n; ++i) q[i] = (uint8_t)(base == 1 ? i : base == 2 ? (i + 1) % n : base == 3 ? (i + n - 1) % n : base == 4 ? n - 1 - i : base == 5 ? (i % 3 == 2 || i / 3 * 3 + 2 >= n ? (i / 3 * 3 + 2 >= n ? i : i - 2) : i + 1) : i);
        for (int j = 0; j < m; ++j) { uint8_t a = below(n), b = below(n); a = (uint8_t)sym_concretize(a); b = (uint8_t)sym_concretize(b); std::swap(q[a], q[b]); }
    }
    for (int i = 0; i < n; ++i) q[i] = (uint8_t)sym_concretize(q[i]);
    {
        Range<Tracked> r(n, 2, 0, 0, 1, 1); sym_eager(1); using It = Ra<Tracked>; Range<Tracked>::view<Ra> v{&r};
        switch (form) {
        case 0: { std::vector<ptrdiff_t> ix(q.begin(), q.end()); ut::apply_permutation(r.p, r.p + n, ix.begin(), ix.end()); break; }
        case 1: { std::vector<uint8_t> ix(q.begin(), q.end()); ut::apply_permutation(v, ix); break; }
        case 2: { std::vector<unsigned> ix(q.begin(), q.end()); ut::apply_permutation(It(r.p), It(r.p + n), ix.data(), ix.data() + n); break; }
        case 3: { std::vector<int16_t> ix(q.begin(), q.end()); ut::apply_permutation(v, std::move(ix)); break; }
        }
        sym_eager(0);
        int ok = 1; for (int i = 0; i < n; ++i) { r.p[i].use(); sym_observe(r.p[i].tag); ok &= r.p[i].tag == q[i] && r.p[i].key == r.k[q[i]]; }
        sym_assert(ok, "apply_permutation put an element in the wrong place");
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
#endif

#if PART == 10
// ---- is_stable must not promise more than the adapters do on the range they are given
template<class X, class C> void claim(FAM, int form) {
    {
        Held<C> h(FAMA); C& r = h.c; using It = decltype(r.begin()); X x; bool desc = false, stable = false;
        sym_eager(1);
        switch (form) {
        case 0: x(r, KeyLess{}); stable = claims<X, C&, KeyLess>; break;
        case 1: x(r.begin(), r.end(), KeyGreater{}); stable = claims<X, It, It, KeyGreater>; desc = true; break;
        case 2: x(r, KeyProj{}); stable = claims<X, C&, KeyProj>; break;
        case 3: x(r.begin(), r.end(), IntLess{}, &Tracked::key); stable = claims<X, It, It, IntLess, uint32_t Tracked::*>; break;
        case 4: x(r, std::greater<>{}, KeyGet{}); stable = claims<X, C&, std::greater<>, KeyGet>; desc = true; break;
        }
        sym_eager(0); std::vector<unsigned> t; for (auto& e : r) t.push_back(e.tag); verdict(h.k, t, desc, stable);
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
#define RANGES(Q) case 0: claim<Q, std::list<Tracked>>(FAMA, form); break; case 1: claim<Q, std::forward_list<Tracked>>(FAMA, form); break; case 2: claim<Q, std::vector<Tracked>>(FAMA, form); break;
#define SORTER(i, ...) case i: if constexpr (i % NG == GG) { using Q = __VA_ARGS__; switch (range) { RANGES(Q) } } break;
template<int GG> void do_claim(int which, int range, int form, FAM) {
    namespace mx = cs::metrics;
    switch (which) {
    SORTER(0, H) SORTER(1, S) SORTER(2, cs::out_of_place_adapter<H>) SORTER(3, cs::out_of_place_adapter<S>) SORTER(4, cs::indirect_adapter<H>) SORTER(5, cs::indirect_adapter<S>)
    SORTER(6, cs::schwartz_adapter<H>) SORTER(7, cs::schwartz_adapter<S>) SORTER(8, mx::comparisons<H>) SORTER(9, mx::comparisons<S>) SORTER(10, mx::running_time<S>) SORTER(11, mx::moves<H>)
    SORTER(12, cs::stable_adapter<cs::out_of_place_adapter<H>>) SORTER(13, cs::stable_adapter<cs::indirect_adapter<H>>) SORTER(14, cs::stable_adapter<H>) SORTER(15, cs::stable_adapter<S>) SORTER(16, cs::stable_adapter<cs::schwartz_adapter<S>>)
    SORTER(17, mx::moves<S>) SORTER(18, cs::stable_adapter<cs::out_of_place_adapter<S>>) SORTER(19, cs::stable_adapter<cs::indirect_adapter<cs::hybrid_adapter<cs::merge_sorter, cs::pdq_sorter>>>)
    SORTER(20, cs::stable_adapter<cs::schwartz_adapter<H>>) SORTER(21, cs::metrics::projections<H>)
    }
}
extern "C" void e_claim(int which, int range, int form, FAM) { do_claim<G>(which, range, form, FAMA); }
#endif
