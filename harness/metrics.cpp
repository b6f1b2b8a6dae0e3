// Metrics: the value returned is the number of operations the adapted sorter did, and the range gets sorted. -DPART=5..6
#include "adapters.cpp"
#include <chrono>
#include <cpp-sort/metrics.h>
#include <cpp-sort/comparators/projection_compare.h>
namespace mx = cs::metrics; namespace ut = cs::utility;

// the clock advances with the work done: a microsecond and a bit per comparison, 300 ns per projection
static int64_t g_skew;
static int64_t fake_now() { return g_skew + 1010 * (int64_t)ops.comps + 300 * (int64_t)ops.projs; }
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fake_now())); } } } }

// a comparison and a projection that claim to be branchless, as plain ones cannot be counted
struct BGreater { template<class A, class B> bool operator()(const A& a, const B& b) const { ++ops.comps; return a > b; } };
struct BLess { template<class A, class B> bool operator()(const A& a, const B& b) const { ++ops.comps; return a < b; } };
struct BProj { template<class A> uint32_t operator()(const A& a) const { a.use(); ++ops.projs; return a.key; } };
namespace cppsort { namespace utility {
    template<class T> struct is_probably_branchless_comparison<BLess, T> : std::true_type {};
    template<class T> struct is_probably_branchless_comparison<BGreater, T> : std::true_type {};
    template<class T> struct is_probably_branchless_projection<BProj, T> : std::true_type {};
}}
// independent count of the moves
static unsigned w_moves;
template<class T> struct W {
    T v; W(T&& x) : v(std::move(x)) {}
    W(W&& o) : v(std::move(o.v)) { ++w_moves; } W& operator=(W&& o) { v = std::move(o.v); ++w_moves; return *this; }
    W(const W&) = delete; W& operator=(const W&) = delete;
};
template<class P> struct WProj { P p; template<class A> decltype(auto) operator()(A& w) const { auto&& f = ut::as_function(p); return f(w.v); } };
template<class P> WProj<P> wproj(P p) { return {p}; }
// a counter that only supports what a count needs
struct Ctr { uint64_t v; explicit Ctr(int x) : v((uint64_t)x) {} Ctr& operator++() { ++v; return *this; } explicit operator uint64_t() const { return v; } };
template<class M> uint64_t val(const M& m) { return (uint64_t)m.value(); }


#if PART == 5
// what the adapted sorter does on the same keys when it is called directly
struct Did { uint64_t comps, projs, moves; };
template<class T> struct Raw {
    T* p; int n; Raw(const std::vector<uint32_t>& k) : n((int)k.size()) { p = (T*)sym_malloc(sizeof(T) * n); for (int i = 0; i < n; ++i) new (p + i) T(k[i], i); }
    ~Raw() { for (int i = 0; i < n; ++i) p[i].~T(); sym_free(p); }
};
template<class Sorter, template<class> class I, class T, class... A> Did direct(const std::vector<uint32_t>& k, const A&... a) {
    Raw<T> r(k); ops = Ops{}; Sorter s; s(I<T>(r.p), I<T>(r.p + r.n), a...); return Did{ops.comps, ops.projs, 0};
}
template<class Sorter, template<class> class I, class T, class C, class P> uint64_t direct_moves(const std::vector<uint32_t>& k, C c, P p) {
    Raw<T> r(k); W<T>* w = (W<T>*)sym_malloc(sizeof(W<T>) * r.n); for (int i = 0; i < r.n; ++i) new (w + i) W<T>(std::move(r.p[i]));
    w_moves = 0; Sorter s; s(I<W<T>>(w), I<W<T>>(w + r.n), c, wproj(p)); uint64_t m = w_moves;
    for (int i = 0; i < r.n; ++i) w[i].~W<T>(); sym_free(w); return m;
}
// `calls` makes the call with the metric; C and P are what it amounts to, and can be counted
template<class Sorter, template<class> class I, class T, class C, class P, class F> void metric(FAM, int kind, bool desc, bool seen, bool branchless, C c, P pr, F call) {
    g_skew = 77777; uint64_t got = 0; Did seen_ops{}, d{};
    {
        Range<T> r(FAMA); sym_eager(1); ops = Ops{};
        switch (kind) {
        case 0: { mx::comparisons<Sorter> x; got = val(call(x, r)); break; }
        case 1: { mx::projections<Sorter, Ctr> x; got = val(call(x, r)); break; }
        case 2: { mx::moves<Sorter> x; got = val(call(x, r)); break; }
        case 3: { mx::running_time<Sorter> x; auto m = call(x, r); static_assert(std::is_same<decltype(m), ut::metric<std::chrono::steady_clock::duration, mx::running_time_tag>>::value, ""); got = (uint64_t)m.value().count(); break; }
#if G == 0
        case 4: { mx::comparisons<Sorter, Ctr> x{Sorter{}}; auto m = call(x, r); static_assert(std::is_same<decltype(m), ut::metric<Ctr, mx::comparisons_tag>>::value, ""); got = val(m); break; }
        case 5: { mx::moves<Sorter, unsigned> x{Sorter{}}; auto m = call(x, r); static_assert(std::is_same<decltype(m), ut::metric<unsigned, mx::moves_tag>>::value, ""); got = val(m); break; }
        case 6: { mx::projections<Sorter> x{Sorter{}}; auto m = call(x, r); static_assert(std::is_same<decltype(m), ut::metric<size_t, mx::projections_tag>>::value, ""); got = val(m); break; }
        case 7: { mx::running_time<Sorter, std::chrono::duration<long, std::micro>> x{Sorter{}}; got = (uint64_t)call(x, r).value().count(); break; }
#endif
        }
        seen_ops = Did{ops.comps, ops.projs, 0}; sym_eager(0); r.check(desc, false); sym_eager(1);
        if (kind == 2 || kind == 5) { if (!branchless) d.moves = direct_moves<Sorter, I, T>(r.k, c, pr); } else d = direct<Sorter, I, T>(r.k, c, pr);
        sym_eager(0);
    }
    if (g_alive != 0) sym_fail("elements leaked");
    switch (kind) {
    case 0: case 4: if (seen && got != seen_ops.comps) sym_fail("metrics::comparisons returns something else than the number of comparisons made");
        if (got != d.comps) sym_fail("metrics::comparisons returns another number of comparisons than the sorter makes when called directly"); break;
    case 1: case 6: if (got != seen_ops.projs) sym_fail("metrics::projections returns something else than the number of projections made");
        if (got != d.projs) sym_fail("metrics::projections returns another number of projections than the sorter makes when called directly"); break;
    case 2: case 5: if (!branchless && got != d.moves) sym_fail("metrics::moves returns another number of moves than the sorter makes when called directly"); break;
    case 3: case 7: { int64_t ns = 1010 * (int64_t)seen_ops.comps + 300 * (int64_t)seen_ops.projs; if (got != (uint64_t)(kind == 7 ? ns / 1000 : ns)) sym_fail("metrics::running_time returns something else than the time the sort took"); break; }
    }
}
template<class Sorter, template<class> class I, class T> void forms(FAM, int kind, int form) {
    using R = Range<T>; using V = typename R::template view<I>; using It = I<T>; using id = ut::identity;
#define M(...) metric<Sorter, I, T>(FAMA, kind, __VA_ARGS__)
    switch (form) {
    case 0: M(false, true, false, KeyLess{}, id{}, [](auto& x, R& r) { return x(It(r.p), It(r.p + r.n), KeyLess{}); }); break;
    case 1: M(true, true, false, KeyGreater{}, id{}, [](auto& x, R& r) { V v{&r}; return x(v, KeyGreater{}); }); break;
    case 2: M(false, true, false, IntLess{}, KeyProj{}, [](auto& x, R& r) { return x(It(r.p), It(r.p + r.n), IntLess{}, KeyProj{}); }); break;
    case 3: M(false, true, false, IntLess{}, KeyProj{}, [](auto& x, R& r) { return x(V{&r}, IntLess{}, KeyProj{}); }); break;
    case 4: M(false, true, true, BLess{}, BProj{}, [](auto& x, R& r) { V v{&r}; return x(v, BLess{}, BProj{}); }); break;
    case 5: M(false, false, false, BLess{}, KeyProj{}, [](auto& x, R& r) { return x(It(r.p), It(r.p + r.n), KeyProj{}); }); break;
    case 6: M(false, false, false, BLess{}, KeyProj{}, [](auto& x, R& r) { V v{&r}; return x(v, KeyProj{}); }); break;
    case 7: M(true, false, false, BGreater{}, KeyProj{}, [](auto& x, R& r) { return x(It(r.p), It(r.p + r.n), std::greater<>{}, KeyProj{}); }); break;
    }
#undef M
}
#define S0(i, ...) case i: if (kind == 2 || kind == 5) forms<__VA_ARGS__, Mov>(FAMA, kind, form); else forms<__VA_ARGS__, Tracked>(FAMA, kind, form); break;
extern "C" void e_metric(int which, int kind, int form, FAM) {
    if ((kind == 1 || kind == 6) && form < 2) return;
    switch (which) {
#if G == 0
    S0(0, cs::pdq_sorter, Ra) S0(1, cs::merge_sorter, Fwd)
#elif G == 1
    S0(2, cs::insertion_sorter, Bid) S0(3, cs::heap_sorter, Ra)
#elif G == 2
    S0(4, cs::quick_sorter, Fwd) S0(5, cs::quick_merge_sorter, Bid)
#elif G == 3
    S0(6, cs::selection_sorter, Fwd) S0(7, cs::smooth_sorter, Ra)
#elif G == 4
    S0(8, cs::tim_sorter, Ra) S0(9, cs::verge_sorter, Bid)
#elif G == 5
    S0(10, cs::grail_sorter<>, Ra) S0(11, cs::drop_merge_sorter, Bid)
#elif G == 6
    S0(12, cs::split_sorter, Ra) S0(13, cs::mel_sorter, Fwd)
#elif G == 7
    using H = cs::hybrid_adapter<cs::merge_sorter, cs::pdq_sorter>; S0(14, H, Ra) S0(15, cs::indirect_adapter<cs::heap_sorter>, Ra)
#endif
    }
}
#endif

#if PART == 6
// ---- metrics around adapters, stateful sorters, lists and small arrays
template<class T, class U> int same(T a, U b) { return (a == b) & !(a != b) & (a <= b) & (a >= b) & !(a < b) & !(a > b); }
template<class A, class B> int rel(int op, const A& a, const B& b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
struct tag_a {}; struct tag_b {};
extern "C" void e_value(int op, int types) {
    sym_eager(0); uint64_t x = u64(), y = u64(), z = u64();
    auto go = [&](auto a, auto b, auto c) {
        using A = decltype(a); using B = decltype(b); ut::metric<A, tag_a> ma(a), mc(c); ut::metric<B, tag_a> mb(b);
        sym_assert(rel(op, ma, mb) == (int)rel(op, a, b), "comparing two metrics differs from comparing their values");
        sym_assert(rel(op, ma, mc) == (int)rel(op, a, c), "comparing two metrics differs from comparing their values");
        sym_assert(rel(op, ma, c) == (int)rel(op, a, c) && rel(op, c, ma) == (int)rel(op, c, a), "comparing a metric with a value differs from comparing the values");
        sym_assert(ma.value() == a && static_cast<A>(ma) == a, "the value of a metric is not the one it was made from");
        auto md = ma; md = c; sym_assert(md.value() == c && ma.value() == a, "assigning a value to a metric");
        md = ma; sym_assert(md.value() == a, "assigning a metric"); A t = c; md = t; sym_assert(md.value() == c, "assigning a value to a metric");
        md = std::move(ma); sym_assert(md.value() == a, "assigning a metric");
        md = mb; sym_assert(md.value() == static_cast<A>(b), "assigning a metric of another type"); md = c; md = std::move(mb); sym_assert(md.value() == static_cast<A>(b), "assigning a metric of another type");
    };
    switch (types) {
    case 0: go((uint64_t)x, (uint32_t)y, (uint64_t)z); break;
    case 1: go((int32_t)x, (int64_t)y, (int32_t)z); break;
    case 2: go((uint8_t)x, (uint16_t)y, (uint8_t)z); break;
    case 3: go((int64_t)x, (int8_t)y, (int64_t)z); break;
    }
}
extern "C" void e_group() {
    using std::get; uint32_t x = u32(), y = u32(); using m1 = ut::metric<uint32_t, tag_a>; using m2 = ut::metric<uint64_t, tag_b>;
    ut::metrics<m1, m2> g{m1(x), m2(y)}; const auto& c = g; auto h = c; auto h2 = g; ut::metrics<m1> one{m1(x)}; auto one2 = one;
    m1 i(x); m2 j(y); ut::metrics d(i, j);
    sym_assert(get<0>(g).value() == x && get<1>(g).value() == y && get<tag_a>(g).value() == x && get<tag_b>(g).value() == y, "get returns another metric");
    sym_assert(get<0>(c).value() == x && get<tag_b>(c).value() == y && get<tag_a>(h).value() == x && get<tag_b>(h2).value() == y && get<tag_a>(one2).value() == x, "get returns another metric");
    sym_assert(get<tag_b>(std::move(h)).value() == y && get<0>(std::move(h2)).value() == x && get<1>(d).value() == y, "get returns another metric");
    get<tag_a>(g) = y; sym_assert(get<0>(g).value() == y && get<1>(g).value() == y, "get does not give access to the metric");
}
extern "C" void e_wrapped(int which, FAM) {
    {
        Range<Tracked> r(FAMA); Range<Tracked>::view<Ra> v{&r}; ops = Ops{}; uint64_t got = 0; bool stable = false, desc = false; sym_eager(1);
        switch (which) {
        case 0: { mx::comparisons<cs::stable_adapter<cs::heap_sorter>> x; got = val(x(v, KeyLess{})); stable = true; break; }
        case 1: { mx::comparisons<cs::drop_merge_adapter<cs::heap_sorter>> x; got = val(x(v, KeyLess{})); break; }
        case 2: { mx::comparisons<mx::moves<cs::merge_sorter>> x; got = val(x(v, KeyLess{})); stable = true; break; }
        case 3: { mx::comparisons<cs::schwartz_adapter<cs::quick_sorter>> x; got = val(x(v, IntLess{}, KeyProj{})); break; }
        case 4: { mx::projections<cs::schwartz_adapter<cs::quick_sorter>> x; val(x(v, IntLess{}, KeyProj{})); got = ops.comps; if (ops.projs != (unsigned)n && n > 1) sym_fail("a projection too many under a metric"); break; }
        case 5: { RS<ra_t, true> s(42); mx::comparisons<RS<ra_t, true>> x(s); got = val(x(v, KeyGreater{})); desc = stable = true; if (rec.id != 42 || rec.calls != 1 || rec.n != n) sym_fail("the metric does not call the sorter it was given"); break; }
        case 6: { RS<ra_t, true> s(43); mx::moves<RS<ra_t, true>> x(s); x(v, KeyLess{}); got = ops.comps; stable = true; if (rec.id != 43 || rec.calls != 1 || rec.n != n) sym_fail("the metric does not call the sorter it was given"); break; }
        case 7: { RS<bid_t, true> s(44); mx::projections<RS<bid_t, true>> x(s); Range<Tracked>::view<Bid> b{&r}; if (val(x(b, std::greater<>{}, KeyProj{})) != ops.projs) sym_fail("metrics::projections returns something else than the number of projections made"); got = ops.comps; desc = stable = true; if (rec.id != 44 || rec.calls != 1) sym_fail("the metric does not call the sorter it was given"); break; }
        case 8: { mx::comparisons<cs::low_comparisons_sorter<5>> x; if (n != 5) return; got = val(x(v, KeyLess{})); break; }
        case 9: { mx::comparisons<cs::small_array_adapter<cs::sorting_network_sorter>> x; if (n != 4) return; std::array<Tracked, 4> a; for (int i = 0; i < 4; ++i) a[i] = std::move(r.p[i]); ops = Ops{}; got = val(x(a, KeyLess{})); for (int i = 0; i < 4; ++i) r.p[i] = std::move(a[i]); break; }
        case 10: { std::list<Tracked> l; for (int i = 0; i < n; ++i) l.push_back(std::move(r.p[i])); ops = Ops{}; mx::comparisons<cs::container_aware_adapter<cs::merge_sorter>> x; got = val(x(l, KeyLess{})); unsigned m = ops.moves; if (m) sym_fail("the list was not sorted by its nodes under a metric"); int i = 0; for (auto& e : l) r.p[i++] = std::move(e); stable = true; break; }
        case 11: { mx::comparisons<cs::counting_adapter<cs::heap_sorter>> x; auto q = x(v, KeyLess{}); got = val(q); break; }
        }
        if (got != ops.comps) sym_fail("the metric returns something else than the number of comparisons made");
        sym_eager(0); r.check(desc, stable);
    }
    if (g_alive != 0) sym_fail("elements leaked");
}
static_assert(cs::is_stable_v<mx::comparisons<cs::merge_sorter>(std::vector<int>&)> && !cs::is_stable_v<mx::moves<cs::heap_sorter>(std::vector<int>&)>, "");
#endif
