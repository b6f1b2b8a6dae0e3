// Sorter adapters on reference sorters that record how they were called. -DPART=1..4
#include "common.h"
#include <array>
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
using namespace vrt;
namespace cs = cppsort;
using fwd_t = std::forward_iterator_tag; using bid_t = std::bidirectional_iterator_tag; using ra_t = std::random_access_iterator_tag;

struct Rec { int calls, id, n; bool direct, contiguous; };      // what the adapted sorters saw
static Rec rec; static const void *g_lo, *g_hi;
struct Res { int id, n; bool operator==(Res o) const { return id == o.id && n == o.n; } };

// stable, and needs nothing more than forward iterators and iter_swap
template<class It, class C, class P> void bubble(It f, It l, int n, C comp, P proj) {
    auto&& c = cs::utility::as_function(comp); auto&& p = cs::utility::as_function(proj);
    for (int e = n; e > 1; --e) {
        It a = f, b = f; ++b; bool any = false;
        for (int i = 1; i < e; ++i, ++a, ++b) if (c(p(*b), p(*a))) { using cs::utility::iter_swap; iter_swap(a, b); any = true; }
        if (!any) break;
    }
}
template<class T, class = void> struct addr_of { static const void* of(T&) { return nullptr; } };
template<class K> struct addr_of<MovT<K>, void> { static const void* of(MovT<K>& x) { return &x; } };
template<class K> struct addr_of<TrackedT<K>, void> { static const void* of(TrackedT<K>& x) { return &x; } };
template<class Cat, bool Stable> struct rs_impl {
    int id = 0;
    rs_impl() = default; constexpr rs_impl(int i) : id(i) {}
    template<class I, class C = std::less<>, class P = cs::utility::identity, class = std::enable_if_t<cs::is_projection_iterator_v<P, I, C>>>
    Res operator()(I f, I l, C c = {}, P p = {}) const {
        int n = 0; const void* prev = nullptr; rec.contiguous = true; rec.direct = true; size_t gap = 0;
        for (I i = f; i != l; ++i, ++n) {
            const void* a = addr_of<std::remove_reference_t<decltype(*i)>>::of(*i);
            if (!(a && std::less_equal<>{}(g_lo, a) && std::less<>{}(a, g_hi))) rec.direct = false;
            if (!a || (n && (const char*)a - (const char*)prev != (ptrdiff_t)sizeof(*i))) rec.contiguous = false;
            prev = a;
        }
        ++rec.calls; rec.id = id; rec.n = n; bubble(f, l, n, std::move(c), std::move(p));
        return {id, n};
    }
    using iterator_category = Cat; using is_always_stable = std::integral_constant<bool, Stable>;
};
template<class Cat, bool Stable = true> struct RS : cs::sorter_facade<rs_impl<Cat, Stable>> { RS() = default; constexpr explicit RS(int i) : cs::sorter_facade<rs_impl<Cat, Stable>>(i) {} };

template<class T> struct Range {
    T* p; int n; std::vector<uint32_t> k;
    Range(int n_, int f, int m, int s, int pt, int sd) : n(n_) {
        fill_keys(k, n, f, m, s, pt, sd); p = (T*)sym_malloc(sizeof(T) * n); for (int i = 0; i < n; ++i) new (p + i) T(k[i], i);
        g_lo = p; g_hi = p + n; rec = Rec{0, -1, -1, false, false};
    }
    ~Range() { for (int i = 0; i < n; ++i) p[i].~T(); sym_free(p); }
    template<template<class> class I> struct view { using It = I<T>; Range* r; It begin() const { return It(r->p); } It end() const { return It(r->p + r->n); } };
    void check(bool desc, bool stable) {
        std::vector<uint8_t> seen(n); int ok = 1;
        for (int i = 0; i < n; ++i) {
            unsigned t = p[i].tag; sym_observe(t);
            if (t >= (unsigned)n) sym_fail("the range holds a moved-from or foreign element after the call");
            if (seen[t]++) sym_fail("an element was lost: the range is not a permutation of the input");
            ok &= p[i].key == k[t];
        }
        for (int i = 0; i + 1 < n; ++i) {
            ok &= desc ? p[i].key >= p[i + 1].key : p[i].key <= p[i + 1].key;
            if (stable && p[i].tag > p[i + 1].tag) ok &= p[i].key != p[i + 1].key;
        }
        sym_assert(ok, "the range is not sorted as documented");
    }
};
static uint16_t g_proj[4096]; static unsigned g_nproj;
struct CountProj { template<class A> uint32_t operator()(const A& a) const { a.use(); if (a.tag < 4096) ++g_proj[a.tag]; ++g_nproj; return a.key; } };
struct NegProj { template<class A> uint32_t operator()(const A& a) const { a.use(); return ~a.key; } };

#define FAM int n, int f, int m, int s, int p, int sd
#define FAMA n, f, m, s, p, sd

#if PART == 1
// ---- schwartz_adapter: every element is projected exactly once, whatever the adapted sorter does
template<class Sorter, template<class> class I, class T = Mov> void schwartz(FAM, int form, bool stable) {
    Range<T> r(FAMA); typename Range<T>::template view<I> v{&r}; using It = I<T>;
    for (int i = 0; i < n; ++i) g_proj[i] = 0;
    g_nproj = 0; cs::schwartz_adapter<Sorter> sorter; bool desc = false; unsigned each = 1;
    sym_eager(1);
    switch (form) {
    case 0: sorter(It(r.p), It(r.p + n), std::less<>{}, CountProj{}); break;
    case 1: sorter(It(r.p), It(r.p + n), std::greater<>{}, CountProj{}); desc = true; break;
    case 2: sorter(v, CountProj{}); break;
    case 3: sorter(v, std::greater<>{}, CountProj{}); desc = true; break;
    case 4: sorter(It(r.p), It(r.p + n), CountProj{}); break;
    case 5: sorter(It(r.p), It(r.p + n), KeyLess{}); each = 0; break;
    case 6: sorter(v, KeyGreater{}, cs::utility::identity{}); each = 0; desc = true; break;
    case 7: cs::schwartz_adapter<cs::schwartz_adapter<Sorter>>{}(v, std::greater<>{}, CountProj{}); desc = true; break;
    }
    sym_eager(0);
    if (each) {
        for (int i = 0; i < n; ++i) if (n > 1 ? g_proj[i] != each : g_proj[i] > each) sym_fail("an element was not projected exactly once");
        if (n > 1 ? g_nproj != (unsigned)n : g_nproj > (unsigned)n) sym_fail("the projection was called on something else than each element once");
    }
    r.check(desc, stable);
}
extern "C" void e_schwartz(int which, int form, FAM) {
    switch (which) {
    case 0: schwartz<cs::merge_sorter, Fwd>(FAMA, form, true); break;
    case 1: schwartz<cs::quick_sorter, Fwd>(FAMA, form, false); break;
    case 2: schwartz<cs::pdq_sorter, Ra>(FAMA, form, false); break;
    case 3: schwartz<cs::heap_sorter, Ra>(FAMA, form, false); break;
    case 4: schwartz<cs::insertion_sorter, Bid>(FAMA, form, true); break;
    case 5: schwartz<cs::selection_sorter, Fwd>(FAMA, form, false); break;
    case 6: schwartz<cs::smooth_sorter, Ra>(FAMA, form, false); break;
    case 7: schwartz<cs::verge_sorter, Bid>(FAMA, form, false); break;
    case 8: schwartz<cs::tim_sorter, Ra>(FAMA, form, true); break;
    case 9: schwartz<cs::adaptive_shivers_sorter, Ra>(FAMA, form, true); break;
    case 10: schwartz<cs::poplar_sorter, Ra>(FAMA, form, false); break;
    case 11: schwartz<cs::spin_sorter, Ra>(FAMA, form, true); break;
    case 12: schwartz<cs::mel_sorter, Fwd>(FAMA, form, false); break;
    case 13: schwartz<cs::quick_merge_sorter, Bid>(FAMA, form, false); break;
    case 14: schwartz<cs::indirect_adapter<cs::heap_sorter>, Bid>(FAMA, form, false); break;
    case 15: schwartz<cs::hybrid_adapter<cs::merge_sorter, cs::heap_sorter>, Ra>(FAMA, form, false); break;
    case 16: schwartz<cs::self_sort_adapter<cs::merge_sorter>, Fwd>(FAMA, form, true); break;
    case 17: schwartz<cs::slab_sorter, Ra>(FAMA, form, false); break;
    case 18: schwartz<cs::drop_merge_sorter, Bid>(FAMA, form, false); break;
    case 19: schwartz<cs::split_sorter, Ra>(FAMA, form, false); break;
    case 20: schwartz<cs::merge_insertion_sorter, Ra>(FAMA, form, false); break;
    case 21: schwartz<cs::splay_sorter, Fwd>(FAMA, form, true); break;
    case 22: schwartz<cs::cartesian_tree_sorter, Fwd>(FAMA, form, false); break;
    }
}
#endif

#if PART == 2
// ---- indirect_adapter: how many elements move
template<class Sorter, template<class> class I> void indirect(FAM, int form) {
    Range<Tracked> r(FAMA); typename Range<Tracked>::template view<I> v{&r}; using It = I<Tracked>;
    cs::indirect_adapter<Sorter> sorter; ops = Ops{}; bool desc = false;
    sym_eager(1);
    switch (form) {
    case 0: sorter(It(r.p), It(r.p + n), KeyLess{}); break;
    case 1: sorter(v, KeyGreater{}); desc = true; break;
    case 2: sorter(It(r.p), It(r.p + n), &Tracked::key); break;
    case 3: sorter(v, std::greater<>{}, KeyProj{}); desc = true; break;
    case 4: cs::indirect_adapter<cs::stable_adapter<Sorter>>{}(v, KeyGreater{}); desc = true; break;
    }
    sym_eager(0);
    unsigned moves = ops.moves; r.check(desc, form == 4);
    unsigned need = 0; std::vector<uint8_t> seen(n);
    for (int i = 0; i < n; ++i) if (!seen[i]) { int len = 0; for (int j = i; !seen[j]; j = r.p[j].tag) { seen[j] = 1; ++len; } if (len > 1) need += len + 1; }
    sym_observe(moves);
    if (2 * moves > 3 * (unsigned)n) sym_fail("more than 3n/2 element moves");
    if (moves > need) sym_fail("more element moves than the cycles of the permutation need");
}
// a comparison throws: the elements must not have moved at all
template<class Sorter, template<class> class I> void indirect_throw(FAM, int form) {
    {
        Range<Tracked> r(FAMA); typename Range<Tracked>::template view<I> v{&r};
        ops = Ops{}; uint16_t at = u16(); ops.at = at; ops.kinds = K_COMP | K_PROJ; ops.armed = true; bool threw = false;
        sym_eager(1);
        try { if (form == 0) cs::indirect_adapter<Sorter>{}(v, KeyLess{}); else cs::indirect_adapter<Sorter>{}(v, std::greater<>{}, KeyProj{}); }
        catch (Boom& b) { threw = true; if (b.id != 42) sym_fail("another exception"); }
        ops.armed = false; sym_eager(0);
        if (threw != ops.fired) sym_fail("the exception was swallowed");
        if (threw) { int ok = 1; for (int i = 0; i < n; ++i) { if (r.p[i].tag != i || r.p[i].st != 1) sym_fail("a throwing comparison moved an element"); ok &= r.p[i].key == r.k[i]; } sym_assert(ok, "a throwing comparison changed an element"); }
        else r.check(form != 0, false);
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
#define WHICH(F, ...) switch (which) { \
    case 0: F<cs::heap_sorter, Ra>(__VA_ARGS__); break; case 1: F<cs::heap_sorter, Bid>(__VA_ARGS__); break; case 2: F<cs::heap_sorter, Fwd>(__VA_ARGS__); break; \
    case 3: F<cs::merge_sorter, Ra>(__VA_ARGS__); break; case 4: F<cs::merge_sorter, Bid>(__VA_ARGS__); break; case 5: F<cs::merge_sorter, Fwd>(__VA_ARGS__); break; \
    case 6: F<cs::pdq_sorter, Ra>(__VA_ARGS__); break; case 7: F<cs::pdq_sorter, Fwd>(__VA_ARGS__); break; \
    case 8: F<cs::selection_sorter, Ra>(__VA_ARGS__); break; case 9: F<cs::insertion_sorter, Bid>(__VA_ARGS__); break; \
    case 10: F<cs::quick_sorter, Ra>(__VA_ARGS__); break; case 11: F<cs::smooth_sorter, Fwd>(__VA_ARGS__); break; \
    case 12: F<cs::indirect_adapter<cs::quick_sorter>, Ra>(__VA_ARGS__); break; case 13: F<cs::std_sorter, Bid>(__VA_ARGS__); break; }
extern "C" void e_indirect(int which, int form, FAM) { WHICH(indirect, FAMA, form) }
extern "C" void e_indirect_throw(int which, int form, FAM) { WHICH(indirect_throw, FAMA, form) }
// ---- out_of_place_adapter: the adapted sorter runs once, on a contiguous buffer of all elements
template<class Cat, template<class> class I> void oop(FAM, int form) {
    {
        Range<Tracked> r(FAMA); typename Range<Tracked>::template view<I> v{&r}; using It = I<Tracked>;
        cs::out_of_place_adapter<RS<Cat>> sorter(RS<Cat>(7)); bool desc = false; Res res{};
        sym_eager(1);
        switch (form) {
        case 0: res = sorter(It(r.p), It(r.p + n), KeyLess{}); break;
        case 1: res = sorter(v, KeyGreater{}); desc = true; break;
        case 2: res = sorter(It(r.p), It(r.p + n), &Tracked::key); break;
        case 3: res = sorter(v, std::greater<>{}, KeyProj{}); desc = true; break;
        case 4: res = cs::stable_adapter<cs::out_of_place_adapter<RS<Cat, false>>>(cs::out_of_place_adapter<RS<Cat, false>>(RS<Cat, false>(7)))(v, KeyLess{}); break;
        }
        sym_eager(0);
        if (!(res == Res{7, n})) sym_fail("the adapted sorter's result is not returned");
        if (rec.calls != 1 || rec.n != n) sym_fail("the adapted sorter was not called once on the whole collection");
        if (form != 4 && n && (rec.direct || !rec.contiguous)) sym_fail("the adapted sorter did not work in a contiguous buffer");
        r.check(desc, true);
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
extern "C" void e_oop(int which, int form, FAM) {
    switch (which) {
    case 0: oop<ra_t, Ra>(FAMA, form); break; case 1: oop<ra_t, Bid>(FAMA, form); break; case 2: oop<ra_t, Fwd>(FAMA, form); break;
    case 3: oop<bid_t, Fwd>(FAMA, form); break; case 4: oop<fwd_t, Fwd>(FAMA, form); break; case 5: oop<bid_t, Ra>(FAMA, form); break;
    }
}
#endif

#if PART == 3
// ---- which sorter runs, what comes back
enum { I_FORMS = 8 };
template<template<class> class I, class S> auto call(const S& sorter, Range<Mov>& r, int form, bool& desc) {
    typename Range<Mov>::template view<I> v{&r}; using It = I<Mov>; It b(r.p), e(r.p + r.n);
    using R = decltype(sorter(b, e, KeyLess{})); R res{}; desc = false;
    sym_eager(1);
    switch (form) {
    case 0: res = sorter(b, e, KeyLess{}); break;
    case 1: res = sorter(v, KeyGreater{}); desc = true; break;
    case 2: res = sorter(b, e, &Mov::key); break;
    case 3: res = sorter(v, std::greater<>{}, &Mov::key); desc = true; break;
    case 4: res = sorter(b, e, std::greater<>{}, NegProj{}); break;
    case 5: res = sorter(v, &Mov::key); break;
    case 6: res = sorter(v, KeyLess{}, cs::utility::identity{}); break;
    case 7: res = sorter(b, e, KeyGreater{}, cs::utility::identity{}); desc = true; break;
    }
    sym_eager(0); return res;
}
template<template<class> class I, class S> void ran(const S& sorter, FAM, int form, int id, bool direct = true) {
    Range<Mov> r(FAMA); bool desc; Res res = call<I>(sorter, r, form, desc);
    if (rec.calls != 1 || rec.n != n) sym_fail("the adapted sorter was not called once on the whole collection");
    if (rec.id != id) sym_fail("another sorter than the documented one was called");
    if (!(res == Res{id, n})) sym_fail("the adapted sorter's result is not returned");
    if (direct && n && !rec.direct) sym_fail("the adapted sorter was not given the collection itself");
    r.check(desc, true);
}
using F = RS<fwd_t>; using B = RS<bid_t>; using A = RS<ra_t>; using U = RS<ra_t, false>;
// only usable with elements of type int
template<class Cat> struct only_int_impl { int id; only_int_impl(int i = 0) : id(i) {}
    template<class I, class C = std::less<>> auto operator()(I f, I l, C = {}) const -> std::enable_if_t<std::is_same<typename std::iterator_traits<I>::value_type, int>::value, Res> { ++rec.calls; rec.id = id; rec.n = std::distance(f, l); return {id, rec.n}; }
    using iterator_category = Cat; using is_always_stable = std::true_type; };
template<class Cat> struct OI : cs::sorter_facade<only_int_impl<Cat>> { OI() = default; explicit OI(int i) : cs::sorter_facade<only_int_impl<Cat>>(i) {} };
extern "C" void e_hybrid(int which, int form, FAM) {
    switch (which) {
    case 0: { cs::hybrid_adapter<F, B, A> h(F(1), B(2), A(3)); ran<Fwd>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 2); ran<Ra>(h, FAMA, form, 3); break; }
    case 1: { cs::hybrid_adapter<A, B, F> h(A(1), B(2), F(3)); ran<Fwd>(h, FAMA, form, 3); ran<Bid>(h, FAMA, form, 2); ran<Ra>(h, FAMA, form, 1); break; }
    case 2: { cs::hybrid_adapter<F, A> h(F(1), A(2)); ran<Fwd>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 1); ran<Ra>(h, FAMA, form, 2); break; }
    case 3: { cs::hybrid_adapter<A, RS<ra_t, true>, F, F> h(A(1), A(2), F(3), F(4)); ran<Ra>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 3); ran<Fwd>(h, FAMA, form, 3); break; }
    case 4: { cs::hybrid_adapter<B, F> h(B(1), F(2)); ran<Ra>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 1); ran<Fwd>(h, FAMA, form, 2); break; }
    case 5: { cs::hybrid_adapter<OI<ra_t>, A, F> h(OI<ra_t>(1), A(2), F(3)); ran<Ra>(h, FAMA, form, 2); ran<Fwd>(h, FAMA, form, 3); break; }
    case 6: { cs::hybrid_adapter<OI<ra_t>, OI<ra_t>, B, F> h(OI<ra_t>(1), OI<ra_t>(2), B(3), F(4)); ran<Ra>(h, FAMA, form, 3); ran<Bid>(h, FAMA, form, 3); ran<Fwd>(h, FAMA, form, 4); break; }
    case 7: { cs::hybrid_adapter<A, OI<fwd_t>, F> h(A(1), OI<fwd_t>(2), F(3)); ran<Fwd>(h, FAMA, form, 3); ran<Bid>(h, FAMA, form, 3); ran<Ra>(h, FAMA, form, 1); break; }
    // nested hybrids behave as one flat hybrid
    case 8: { cs::hybrid_adapter<F, A> in(F(1), A(2)); cs::hybrid_adapter<cs::hybrid_adapter<F, A>, B> h(in, B(3)); ran<Fwd>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 3); ran<Ra>(h, FAMA, form, 2); break; }
    case 9: { cs::hybrid_adapter<F, A> in(F(1), A(2)); cs::hybrid_adapter<B, cs::hybrid_adapter<F, A>, A> h(B(3), in, A(4)); ran<Fwd>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 3); ran<Ra>(h, FAMA, form, 2); break; }
    case 10: { cs::hybrid_adapter<A, B> i1(A(1), B(2)); cs::hybrid_adapter<A, F> i2(A(3), F(4)); cs::hybrid_adapter<cs::hybrid_adapter<A, B>, cs::hybrid_adapter<A, F>> h(i1, i2); ran<Ra>(h, FAMA, form, 1); ran<Bid>(h, FAMA, form, 2); ran<Fwd>(h, FAMA, form, 4); break; }
    case 11: { cs::hybrid_adapter<F> i1(F(1)); cs::hybrid_adapter<cs::hybrid_adapter<cs::hybrid_adapter<F>, B>, A> h(cs::hybrid_adapter<cs::hybrid_adapter<F>, B>(i1, B(2)), A(3)); ran<Ra>(h, FAMA, form, 3); ran<Bid>(h, FAMA, form, 2); ran<Fwd>(h, FAMA, form, 1); break; }
    // stable_adapter on a hybrid: stable whatever the selected sorter
    case 12: { using H = cs::hybrid_adapter<RS<ra_t, false>, RS<fwd_t, true>>; cs::stable_adapter<H> h(H(RS<ra_t, false>(1), F(2))); ran<Ra>(h, FAMA, form, 1, false); ran<Bid>(h, FAMA, form, 2); ran<Fwd>(h, FAMA, form, 2); break; }
    case 13: { using H = cs::hybrid_adapter<F, B, A>; cs::stable_adapter<H> h(H(F(1), B(2), A(3))); ran<Ra>(h, FAMA, form, 3); ran<Bid>(h, FAMA, form, 2); ran<Fwd>(h, FAMA, form, 1); break; }
    }
    static_assert(std::is_same<cs::iterator_category<cs::hybrid_adapter<A, B>>, bid_t>::value && std::is_same<cs::iterator_category<cs::hybrid_adapter<A, F, B>>, fwd_t>::value, "iterator category");
    static_assert(cs::is_always_stable_v<cs::hybrid_adapter<A, B>> && !cs::is_always_stable_v<cs::hybrid_adapter<A, RS<bid_t, false>>>, "stability");
}
// every adapter that forwards the result and stores a sorter with state
extern "C" void e_forward(int which, int form, FAM) {
    switch (which) {
    case 0: { cs::self_sort_adapter<cs::hybrid_adapter<F, A>> a(cs::hybrid_adapter<F, A>(F(5), A(6))); ran<Fwd>(a, FAMA, form, 5); ran<Ra>(a, FAMA, form, 6); break; }
    case 1: { cs::indirect_adapter<A> a(A(5)); ran<Fwd>(a, FAMA, form, 5, false); ran<Ra>(a, FAMA, form, 5, false); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 2: { cs::out_of_place_adapter<A> a(A(5)); ran<Bid>(a, FAMA, form, 5, false); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 3: { cs::schwartz_adapter<F> a(F(5)); ran<Fwd>(a, FAMA, form, 5, false); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 4: { cs::self_sort_adapter<F> a(F(5)); ran<Fwd>(a, FAMA, form, 5); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 5: { cs::stable_adapter<F> a(F(5)); ran<Fwd>(a, FAMA, form, 5); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 6: { cs::stable_adapter<RS<fwd_t, false>> a(RS<fwd_t, false>(5)); ran<Fwd>(a, FAMA, form, 5, false); if (a.get().id != 5) sym_fail("get() returns another sorter"); break; }
    case 7: { cs::make_stable<RS<fwd_t, false>> a(RS<fwd_t, false>(5)); ran<Fwd>(a, FAMA, form, 5, false); break; }
    case 8: { cs::schwartz_adapter<cs::schwartz_adapter<F>> a(cs::schwartz_adapter<F>(F(5))); ran<Fwd>(a, FAMA, form, 5, false); break; }
    case 9: { using S = cs::stable_adapter<U>; cs::stable_adapter<S> a(S(U(5))); ran<Ra>(a, FAMA, form, 5, false); break; }
    case 10: { using S = cs::hybrid_adapter<U>; cs::indirect_adapter<S> a(S(U(5))); ran<Bid>(a, FAMA, form, 5, false); break; }
    case 11: { using S = cs::indirect_adapter<A>; cs::schwartz_adapter<S> a(S(A(5))); ran<Fwd>(a, FAMA, form, 5, false); break; }
    case 12: { using S = cs::self_sort_adapter<U>; cs::stable_adapter<S> a(S(U(5))); ran<Ra>(a, FAMA, form, 5, false); break; }
    case 13: { using S = cs::schwartz_adapter<U>; cs::stable_adapter<S> a(S(U(5))); ran<Ra>(a, FAMA, form, 5, false); break; }
    case 14: { using S = cs::schwartz_adapter<A>; cs::out_of_place_adapter<S> a(S(A(5))); ran<Fwd>(a, FAMA, form, 5, false); break; }
    case 15: { using S = cs::indirect_adapter<A>; cs::hybrid_adapter<S, A> a(S(A(5)), A(6)); ran<Fwd>(a, FAMA, form, 5, false); ran<Ra>(a, FAMA, form, 6); break; }
    }
}
// ---- counting_adapter: the exact number of comparisons
template<class S, template<class> class I, class N> void counting(FAM, int form) {
    Range<Mov> r(FAMA); bool desc; ops = Ops{}; N got{};
    typename Range<Mov>::template view<I> v{&r}; using It = I<Mov>; It b(r.p), e(r.p + n); cs::counting_adapter<S, N> sorter; desc = false;
    sym_eager(1);
    switch (form) {
    case 0: got = sorter(b, e, KeyLess{}); break;
    case 1: got = sorter(v, KeyGreater{}); desc = true; break;
    case 2: got = sorter(b, e, IntLess{}, &Mov::key); break;
    case 3: got = sorter(v, IntLess{}, NegProj{}); desc = true; break;
    }
    sym_eager(0); unsigned k = ops.comps; r.check(desc, false); sym_observe(k);
    if ((uint64_t)got != (uint64_t)(N)k) sym_fail("the number returned is not the number of comparisons made");
    static_assert(std::is_same<N, decltype(sorter(b, e, KeyLess{}))>::value, "CountType");
}
extern "C" void e_counting(int which, int form, FAM) {
    switch (which) {
    case 0: counting<cs::merge_sorter, Fwd, size_t>(FAMA, form); break; case 1: counting<cs::quick_sorter, Bid, int>(FAMA, form); break;
    case 2: counting<cs::heap_sorter, Ra, short>(FAMA, form); break; case 3: counting<cs::insertion_sorter, Bid, unsigned long long>(FAMA, form); break;
    case 4: counting<cs::merge_insertion_sorter, Ra, size_t>(FAMA, form); break; case 5: counting<cs::tim_sorter, Ra, size_t>(FAMA, form); break;
    case 6: counting<cs::verge_sorter, Ra, size_t>(FAMA, form); break; case 7: counting<cs::selection_sorter, Fwd, uint16_t>(FAMA, form); break;
    case 8: counting<cs::pdq_sorter, Ra, size_t>(FAMA, form); break; case 9: counting<cs::splay_sorter, Fwd, size_t>(FAMA, form); break;
    case 10: counting<cs::indirect_adapter<cs::smooth_sorter>, Ra, size_t>(FAMA, form); break; case 11: counting<cs::drop_merge_sorter, Bid, size_t>(FAMA, form); break;
    case 12: counting<cs::spin_sorter, Ra, size_t>(FAMA, form); break; case 13: counting<cs::block_sorter<>, Ra, size_t>(FAMA, form); break;
    case 14: counting<cs::cartesian_tree_sorter, Fwd, size_t>(FAMA, form); break; case 15: counting<cs::mel_sorter, Bid, size_t>(FAMA, form); break;
    }
}
// ---- self_sort_adapter: a collection's own sort, else its own stable_sort, else the adapted sorter
struct Coll {
    using It = Ra<Mov>; Range<Mov>* r; It begin() const { return It(r->p); } It end() const { return It(r->p + r->n); }
    static int own;
    template<class C> Res run(int id, C c) { own = id; bubble(begin(), end(), r->n, c, cs::utility::identity{}); return {id, r->n}; }
    template<class C, class P> Res run(int id, C c, P p) { own = id; bubble(begin(), end(), r->n, c, p); return {id, r->n}; }
};
int Coll::own = 0;
struct WithSort : Coll { template<class C> Res sort(C c) { return run(11, c); } template<class C, class P> Res sort(C c, P p) { return run(12, c, p); } template<class C> Res stable_sort(C c) { return run(13, c); } };
struct WithStable : Coll { template<class C> Res stable_sort(C c) { return run(13, c); } template<class C, class P> Res stable_sort(C c, P p) { return run(14, c, p); } };
struct WithComp : Coll { template<class C> Res sort(C c) { return run(11, c); } };
template<class L> void self_list(const std::vector<uint32_t>& k, int form) {
    struct E { uint32_t key; int tag; void use() const {} }; using LL = typename L::template of<E>; int n = k.size(); const E* node[16]; LL l;
    for (int i = n; i-- > 0;) { l.push_front(E{k[i], i}); node[i] = &l.front(); }
    rec = Rec{0, -1, -1, false, false}; bool desc = false; Res res{-2, -2}; cs::self_sort_adapter<F> sorter(F(7)); ops = Ops{};
    sym_eager(1);
    switch (form) {
    case 0: sorter(l, KeyLess{}); break;
    case 1: sorter(l, KeyGreater{}); desc = true; break;
    case 2: res = sorter(l, std::greater<>{}, &E::key); desc = true; break;
    case 3: res = sorter(l, &E::key); break;
    case 4: res = sorter(l.begin(), l.end(), KeyLess{}); break;
    case 5: res = sorter(l, KeyProj{}); break;
    }
    sym_eager(0);
    bool own = form < 2; if (own != (rec.calls == 0)) sym_fail("the list's own sort and not the adapted sorter must be used exactly when it accepts the arguments");
    if (!own && !(res == Res{7, n})) sym_fail("the adapted sorter's result is not returned");
    int ok = 1, i = 0; const E* p = nullptr; uint32_t seen = 0;
    for (auto& x : l) {
        if (x.tag < 0 || x.tag >= n || (seen >> x.tag & 1)) sym_fail("an element was lost"); seen |= 1u << x.tag; ok &= x.key == k[x.tag]; sym_observe(x.tag);
        if (p) { ok &= desc ? p->key >= x.key : p->key <= x.key; if (p->tag > x.tag) ok &= p->key != x.key; }
        if (own && node[x.tag] != &x) sym_fail("an element left its node");
        p = &x; ++i;
    }
    sym_assert(ok && i == n, "the list is not sorted");
}
struct DL { template<class E> using of = std::list<E>; }; struct FL { template<class E> using of = std::forward_list<E>; };
extern "C" void e_self(int which, int form, FAM) {
    if (which >= 6) { std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd); if (which == 6) self_list<DL>(k, form); else self_list<FL>(k, form); return; }
    Range<Mov> r(FAMA); bool desc = false; Coll::own = 0; Res res{}; int want = 0;
    auto go = [&](const auto& sorter, auto c, int w1, int w2) {
        c.r = &r; sym_eager(1);
        switch (form) {
        case 0: res = sorter(c, KeyLess{}); want = w1; break;
        case 1: res = sorter(c, KeyGreater{}); want = w1; desc = true; break;
        case 2: res = sorter(c, std::greater<>{}, NegProj{}); want = w2; break;
        case 3: res = sorter(c, std::greater<>{}, &Mov::key); want = w2; desc = true; break;
        case 4: res = sorter(c.begin(), c.end(), KeyLess{}); want = 0; break;
        }
        sym_eager(0);
    };
    cs::self_sort_adapter<U> plain(U(7)); cs::stable_adapter<cs::self_sort_adapter<U>> stab(plain);
    switch (which) {
    case 0: go(plain, WithSort{}, 11, 12); break;
    case 1: go(plain, WithStable{}, 13, 14); break;
    case 2: go(plain, WithComp{}, 11, 0); break;
    case 3: go(plain, Coll{}, 0, 0); break;
    case 4: go(stab, WithSort{}, 13, 0); break;      // only a stable own method may be used
    case 5: go(stab, WithStable{}, 13, 14); break;
    }
    if (want ? Coll::own != want || rec.calls : Coll::own || rec.calls != 1) sym_fail("another algorithm than the documented one was used");
    if (!(res == Res{want ? want : 7, n})) sym_fail("the result of the algorithm is not returned");
    r.check(desc, true);
}
// ---- small_array_adapter: the fixed-size sorter of exactly the array's size, when it is in the index set
template<size_t N> struct FS : RS<ra_t, false> { FS() : RS<ra_t, false>(100 + (int)N) {} };
template<size_t N> struct FD : RS<ra_t, false> { FD() : RS<ra_t, false>(200 + (int)N) {} };
namespace cppsort { template<> struct fixed_sorter_traits<FS> { using iterator_category = ra_t; using is_always_stable = std::false_type; };
                    template<> struct fixed_sorter_traits<FD> { using domain = std::index_sequence<1, 3, 4>; using iterator_category = ra_t; using is_always_stable = std::false_type; }; }
template<int N, class S> void small1(const S& sorter, int form, int id, bool direct, bool stdarr) {
    uint32_t k[N]; Mov* a; std::array<Mov, N> sa; Mov ca[N];
    for (int i = 0; i < N; ++i) { k[i] = u8(); Mov x(k[i], i), y(k[i], i); sa[i] = std::move(x); ca[i] = std::move(y); }
    a = stdarr ? sa.data() : ca; g_lo = a; g_hi = a + N; rec = Rec{0, -1, -1, false, false}; bool desc = false; Res res{};
    sym_eager(1);
#define GO(x) switch (form) { case 0: res = sorter(x, KeyLess{}); break; case 1: res = sorter(x, KeyGreater{}); desc = true; break; case 2: res = sorter(x, &Mov::key); break; case 3: res = sorter(x, std::greater<>{}, &Mov::key); desc = true; break; }
    if (stdarr) GO(sa) else GO(ca)
#undef GO
    sym_eager(0);
    if (rec.calls != 1 || rec.n != N || rec.id != id || !(res == Res{id, N})) sym_fail("an array was not handed to the fixed-size sorter of its size, or not to the fallback");
    if (direct && !rec.direct) sym_fail("the adapted sorter was not given the array itself");
    int ok = 1; unsigned seen = 0;
    for (int i = 0; i < N; ++i) {
        unsigned t = a[i].tag; sym_observe(t); if (t >= N || seen >> t & 1) sym_fail("an element was lost"); seen |= 1u << t; ok &= a[i].key == k[t];
        if (i) ok &= desc ? a[i - 1].key >= a[i].key : a[i - 1].key <= a[i].key;
    }
    sym_assert(ok, "the array is not sorted");
}
extern "C" void e_small(int which, int form, int sa) {
    U fb(9);
    switch (which) {
    case 0: { cs::small_array_adapter<FS> s; small1<1>(s, form, 101, true, sa); small1<3>(s, form, 103, true, sa); small1<4>(s, form, 104, true, sa); break; }
    case 1: { using H = cs::hybrid_adapter<cs::small_array_adapter<FS, std::index_sequence<2, 4>>, U>; H h(cs::small_array_adapter<FS, std::index_sequence<2, 4>>{}, fb);
              small1<1>(h, form, 9, true, sa); small1<2>(h, form, 102, true, sa); small1<3>(h, form, 9, true, sa); small1<4>(h, form, 104, true, sa); break; }
    case 2: { using H = cs::hybrid_adapter<cs::small_array_adapter<FD>, U>; H h(cs::small_array_adapter<FD>{}, fb); small1<1>(h, form, 201, true, sa); small1<2>(h, form, 9, true, sa); small1<3>(h, form, 203, true, sa); small1<4>(h, form, 204, true, sa); break; }
    case 3: { cs::schwartz_adapter<cs::small_array_adapter<FS>> s; small1<2>(s, form, 102, false, sa); small1<4>(s, form, 104, false, sa); break; }
    case 4: { cs::schwartz_adapter<cs::small_array_adapter<FD>> s; small1<3>(s, form, 203, false, sa); small1<4>(s, form, 204, false, sa); break; }
    }
}
// ---- container_aware_adapter: a sort function found for the sorter and the container, whatever its signature
namespace user {
    struct Base { using It = Ra<Mov>; Range<Mov>* r; It begin() const { return It(r->p); } It end() const { return It(r->p + r->n); } };
    static int own;
    struct C0 : Base {}; struct C1 : Base {}; struct C2 : Base {}; struct C3 : Base {}; struct C4 : Base {};
    template<class C, class P = cs::utility::identity> Res own_sort(int id, const Base& b, C c, P p = {}) { own = id; bubble(b.begin(), b.end(), b.r->n, c, p); return {id, b.r->n}; }
    // C1: comparison only; C2: comparison and projection; C3: both; C0: none; C4: projection only
    template<class C> auto sort(U, C1& x, C c) -> std::enable_if_t<!cs::is_projection_v<C, C1&>, Res> { return own_sort(21, x, c); }
    template<class C, class P> Res sort(U, C2& x, C c, P p) { return own_sort(22, x, c, p); }
    template<class C> auto sort(U, C3& x, C c) -> std::enable_if_t<!cs::is_projection_v<C, C3&>, Res> { return own_sort(23, x, c); }
    template<class C, class P> Res sort(U, C3& x, C c, P p) { return own_sort(24, x, c, p); }
    template<class P> auto sort(U, C4& x, P p) -> std::enable_if_t<cs::is_projection_v<P, C4&>, Res> { return own_sort(25, x, std::less<>{}, p); }
}
extern "C" void e_aware(int which, int form, FAM) {
    Range<Mov> r(FAMA); bool desc = false; user::own = 0; Res res{}; cs::container_aware_adapter<U> sorter(U(7)); int want = 0;
    auto go = [&](auto c, int wc, int wp, int wcp) {
        c.r = &r; sym_eager(1);
        switch (form) {
        case 0: res = sorter(c, KeyLess{}); want = wc; break;
        case 1: res = sorter(c, &Mov::key); want = wp; break;
        case 2: res = sorter(c, std::greater<>{}, NegProj{}); want = wcp; break;
        case 3: res = sorter(c, std::greater<>{}, &Mov::key); want = wcp; desc = true; break;
        case 4: res = sorter(c, NegProj{}); want = wp; desc = true; break;
        }
        sym_eager(0);
    };
    switch (which) {
    case 0: go(user::C0{}, 0, 0, 0); break;
    case 1: go(user::C1{}, 21, 21, 21); break;         // through a comparison that projects
    case 2: go(user::C2{}, 0, 22, 22); break;
    case 3: go(user::C3{}, 23, 24, 24); break;
    case 4: go(user::C4{}, 0, 25, 0); break;
    }
    if (want ? user::own != want || rec.calls : user::own || rec.calls != 1) sym_fail("another algorithm than the documented one was used");
    if (!(res == Res{want ? want : 7, n})) sym_fail("the result of the algorithm is not returned");
    r.check(desc, true);
}
#endif

#if PART == 4
// ---- drop_merge, split and verge around a reference sorter
template<class S, template<class> class I> void adapted(FAM, int form, bool stable) {
    {
        Range<Tracked> r(FAMA); typename Range<Tracked>::template view<I> v{&r}; using It = I<Tracked>; bool desc = false; S sorter;
        sym_eager(1);
        switch (form) {
        case 0: sorter(It(r.p), It(r.p + n), KeyLess{}); break;
        case 1: sorter(v, KeyGreater{}); desc = true; break;
        case 2: sorter(It(r.p), It(r.p + n), &Tracked::key); break;
        case 3: sorter(v, std::greater<>{}, KeyProj{}); desc = true; break;
        }
        sym_eager(0); r.check(desc, stable);
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
extern "C" void e_adapted(int which, int form, FAM) {
    switch (which) {
    case 0: adapted<cs::drop_merge_adapter<RS<fwd_t, false>>, Bid>(FAMA, form, false); break;
    case 1: adapted<cs::drop_merge_adapter<RS<bid_t, false>>, Bid>(FAMA, form, false); break;
    case 2: adapted<cs::drop_merge_adapter<RS<ra_t, false>>, Ra>(FAMA, form, false); break;
    case 3: adapted<cs::split_adapter<RS<bid_t, false>>, Bid>(FAMA, form, false); break;
    case 4: adapted<cs::split_adapter<RS<ra_t, false>>, Ra>(FAMA, form, false); break;
    case 5: adapted<cs::split_adapter<RS<fwd_t, false>>, Bid>(FAMA, form, false); break;
    case 6: adapted<cs::verge_adapter<RS<bid_t, false>>, Bid>(FAMA, form, false); break;
    case 7: adapted<cs::verge_adapter<RS<ra_t, false>>, Ra>(FAMA, form, false); break;
    case 8: adapted<cs::stable_adapter<cs::verge_adapter<RS<ra_t, false>>>, Ra>(FAMA, form, true); break;
    case 9: adapted<cs::stable_adapter<cs::verge_adapter<RS<bid_t, false>>>, Bid>(FAMA, form, true); break;
    case 10: adapted<cs::stable_adapter<cs::split_adapter<RS<ra_t, false>>>, Ra>(FAMA, form, true); break;
    case 11: adapted<cs::stable_adapter<cs::drop_merge_adapter<RS<bid_t, false>>>, Bid>(FAMA, form, true); break;
    case 12: adapted<cs::verge_adapter<cs::merge_sorter>, Ra>(FAMA, form, false); break;
    case 13: adapted<cs::verge_adapter<cs::quick_merge_sorter>, Bid>(FAMA, form, false); break;
    case 14: adapted<cs::drop_merge_adapter<cs::smooth_sorter>, Bid>(FAMA, form, false); break;
    case 15: adapted<cs::split_adapter<cs::poplar_sorter>, Ra>(FAMA, form, false); break;
    case 16: adapted<cs::split_adapter<cs::pdq_sorter>, Ra>(FAMA, form, false); break;
    case 17: adapted<cs::stable_adapter<cs::verge_adapter<cs::heap_sorter>>, Ra>(FAMA, form, true); break;
    }
}
#endif
