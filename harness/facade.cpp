// The unified interface: every way to call a sorter.
// -DPART=1: one sorter (HDR, SORTER, CAT, GLOB); -DPART=2: sorter_facade on minimal implementations that record how they were called
#include "common.h"
#include <array>
#include <functional>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/functional.h>
#if PART == 1
#include HDR
#ifdef HDR2
#include HDR2
#endif
#ifdef HDR3
#include HDR3
#endif
#ifdef HDR4
#include HDR4
#endif
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#endif
using namespace vrt;
namespace cs = cppsort;
namespace vrt {
    inline bool operator<(const Mov& a, const Mov& b) { return a.key < b.key; }
    inline bool operator>(const Mov& a, const Mov& b) { return a.key > b.key; }
}
#define FAM int n, int f, int m, int s, int p, int sd
#define FAMA n, f, m, s, p, sd

// a range of its own kind, with or without size()
template<class I, bool Sized> struct View { I b, e; I begin() const { return b; } I end() const { return e; } };
template<class I> struct View<I, true> { I b, e; I begin() const { return b; } I end() const { return e; } size_t size() const { return (size_t)std::distance(b, e); } };
template<class T> using Ptr = T*;

#if PART == 1
using sorter_t = SORTER;
#if CAT == 0
template<class T> using I = Fwd<T>;
#elif CAT == 1
template<class T> using I = Bid<T>;
#else
template<class T> using I = Ra<T>;
#endif
struct Run { std::vector<uint32_t> k; std::vector<uint16_t> ref; int n; bool first = true; };
template<class F> void once(Run& run, bool desc, F f) {
    int n = run.n; Mov* p = (Mov*)sym_malloc(sizeof(Mov) * n); for (int i = 0; i < n; ++i) new (p + i) Mov(run.k[i], i);
    sym_eager(1); f(p, p + n); sym_eager(0);
    if (run.first) {
        run.ref.resize(n); std::vector<uint8_t> seen(n); int ok = 1;
        for (int i = 0; i < n; ++i) {
            unsigned t = p[i].tag; run.ref[i] = (uint16_t)t; sym_observe(t);
            if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of the input");
            ok &= p[i].key == run.k[t]; if (i) ok &= desc ? p[i - 1].key >= p[i].key : p[i - 1].key <= p[i].key;
        }
        sym_assert(ok, "the range is not sorted as asked"); run.first = false;
    } else for (int i = 0; i < n; ++i) if (p[i].tag != run.ref[i]) sym_fail("two equivalent calls gave different sequences");
    for (int i = 0; i < n; ++i) p[i].~Mov(); sym_free(p);
}
template<class S, class... A> constexpr bool can = std::is_invocable_v<const S&, A...>;
#ifdef ADAPTER
#define FPTR 0
#else
#define FPTR 1
#endif
template<class Fp, class... A> void through(Fp fp, A&&... a) { if constexpr (FPTR || std::is_convertible_v<sorter_t, Fp>) fp = sorter_t{}; if (fp) fp((A&&)a...); }

// every call made with the functions A...
template<bool Sized, class... A> void calls(Run& run, bool desc, A... a) {
    using It = I<Mov>; using V = View<It, Sized>; const sorter_t s{}; sorter_t ms{};
    once(run, desc, [&](Mov* b, Mov* e) { s(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; s(v, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { s(V{It(b), It(e)}, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { const V v{It(b), It(e)}; ms(v, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { sorter_t{}(It(b), It(e), a...); });
#ifdef GLOB
    once(run, desc, [&](Mov* b, Mov* e) { GLOB(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; GLOB(v, a...); });
#endif
}
template<class... A> void more(Run& run, bool desc, A... a) {
    using It = I<Mov>; using V = View<It, false>; const sorter_t s{};
    once(run, desc, [&](Mov* b, Mov* e) { s(It(b), It(e), a...); });
#ifndef NOTRAITS
    once(run, desc, [&](Mov* b, Mov* e) { cs::sort(s, It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; cs::sort(s, v, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { using Fp = void (*)(It, It, A...); Fp fp = nullptr; if constexpr (FPTR || std::is_convertible_v<sorter_t, Fp>) fp = s; if (fp) fp(It(b), It(e), a...); else s(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { using Fp = void (*)(V&, A...); Fp fp = nullptr; V v{It(b), It(e)}; if constexpr (FPTR || std::is_convertible_v<sorter_t, Fp>) fp = s; if (fp) fp(v, a...); else s(v, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { using Fp = void (*)(V&&, A...); Fp fp = nullptr; if constexpr (FPTR || std::is_convertible_v<sorter_t, Fp>) fp = s; if (fp) fp(V{It(b), It(e)}, a...); else s(V{It(b), It(e)}, a...); });
#endif
}
// the stable sort of a sorter, through stable_sort, stable_t and stable_adapter
template<class... A> void stables(Run& run, bool desc, A... a) {
#ifndef NOTRAITS
    using It = I<Mov>; using V = View<It, false>; const sorter_t s{};
    once(run, desc, [&](Mov* b, Mov* e) { cs::stable_adapter<sorter_t>{}(It(b), It(e), a...); });
    int n = run.n; int ok = 1; for (int i = 0; i + 1 < n; ++i) if (run.ref[i] > run.ref[i + 1]) ok &= run.k[run.ref[i]] != run.k[run.ref[i + 1]];
    sym_assert(ok, "the stable version reordered equivalent elements");
    once(run, desc, [&](Mov* b, Mov* e) { cs::stable_sort(s, It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; cs::stable_sort(s, v, a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; cs::stable_t<sorter_t>{}(v, a...); });
#endif
}
#ifdef DEFAULT
template<class... A> void defaults(Run& run, bool desc, A... a) {
    using It = I<Mov>; using V = View<It, false>;
    once(run, desc, [&](Mov* b, Mov* e) { sorter_t{}(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { cs::sort(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; cs::sort(v, a...); });
    run.first = true;
    once(run, desc, [&](Mov* b, Mov* e) { cs::stable_adapter<sorter_t>{}(It(b), It(e), a...); });
    int n = run.n; int ok = 1; for (int i = 0; i + 1 < n; ++i) if (run.ref[i] > run.ref[i + 1]) ok &= run.k[run.ref[i]] != run.k[run.ref[i + 1]];
    sym_assert(ok, "the stable version reordered equivalent elements");
    once(run, desc, [&](Mov* b, Mov* e) { cs::stable_sort(It(b), It(e), a...); });
    once(run, desc, [&](Mov* b, Mov* e) { V v{It(b), It(e)}; cs::stable_sort(v, a...); });
}
#define ALSO defaults
#else
#define ALSO stables
#endif
static constexpr std::less<> lt{}; static constexpr std::greater<> gt{}; static constexpr cs::utility::identity id{};
static bool less_fn(const Mov& a, const Mov& b) { return a.key < b.key; }
static uint32_t neg_fn(const Mov& a) { return ~a.key; }
struct ByMod { uint32_t x; bool operator()(uint32_t a, uint32_t b) const { return (a ^ x) < (b ^ x); } };
extern "C" void e_calls(int which, FAM) {
    Run r; r.n = n; fill_keys(r.k, FAMA);
    switch (which) {
#if G == 0
    case 0: calls<false>(r, false); calls<true>(r, false, lt); more(r, false, id); more(r, false, lt, id); calls<false>(r, false, id); calls<true>(r, false, lt, id); break;
    case 1: more(r, false); more(r, false, lt); more(r, false); break;
#endif
#if G == 1
    case 0: calls<false>(r, true, gt); calls<true>(r, true, gt, id); more(r, true, gt); break;
    case 1: more(r, true, gt, id); break;
#endif
#if G == 2
    case 0: calls<false>(r, false, &Mov::key); calls<true>(r, false, lt, &Mov::key); more(r, false, &Mov::key); break;
    case 1: more(r, false, lt, &Mov::key); break;
    case 2: calls<true>(r, true, gt, &Mov::key); more(r, true, gt, &Mov::key); break;
#endif
#if G == 3
    case 0: calls<false>(r, false, &less_fn); more(r, false, &less_fn); break;
    case 1: calls<true>(r, true, &neg_fn); more(r, true, lt, &neg_fn); break;
    case 2: calls<false>(r, true, ByMod{0xffffffff}, &Mov::key); more(r, true, ByMod{0xffffffff}, &Mov::key); break;
    case 3: calls<true>(r, false, ByMod{0xffffffff}, &neg_fn); break;
#endif
#if G == 4
    case 0: ALSO(r, false); break;
    case 1: ALSO(r, true, gt); break;
    case 2: ALSO(r, true, lt, &neg_fn); break;
    case 3: ALSO(r, true, gt, &Mov::key); break;
    case 4: ALSO(r, true, &neg_fn); break;
#endif
    }
}
#endif

#if PART == 2
// Implementations with a minimal interface K, recording which of their overloads was called. -DG=K
#ifdef __cpp_lib_ranges
#include <compare>
#endif
struct Q {
    uint32_t key; uint16_t tag;
    friend bool operator<(Q a, Q b) { return a.key < b.key; } friend bool operator>(Q a, Q b) { return a.key > b.key; } friend bool operator<=(Q a, Q b) { return a.key <= b.key; }
    friend bool operator>=(Q a, Q b) { return a.key >= b.key; } friend bool operator==(Q a, Q b) { return a.key == b.key; } friend bool operator!=(Q a, Q b) { return a.key != b.key; }
};
struct Rec { int calls; bool range; bool wrong_range; const void* obj; }; static Rec rec;
struct Res { int id; };
template<class I, class C, class P> void insertion(I f, I l, C comp, P proj) {
    auto&& c = cs::utility::as_function(comp); auto&& p = cs::utility::as_function(proj);
    for (I i = f; i != l; ++i) for (I j = i; j != f && c(p(*j), p(*std::prev(j))); --j) std::swap(*j, *std::prev(j));
}
using Id = cs::utility::identity;
template<class I> using val = typename std::iterator_traits<I>::value_type;
template<class P, class I, class C = std::less<>> using itp = std::enable_if_t<cs::is_projection_iterator_v<P, I, C>>;
template<class P, class V, class C = std::less<>> using rgp = std::enable_if_t<cs::is_projection_v<P, V, C>>;
template<class V> auto whole(V&& v) { rec.range = true; rec.obj = &v; return std::make_pair(std::begin(v), std::end(v)); }
struct base { int id = 7; base() = default; constexpr base(int i) : id(i) {} };
struct empty_base { static constexpr int id = 7; };
template<int K, class B> struct impl;
template<class B> struct impl<0, B> : B { using B::B;
    template<class I> Res operator()(I f, I l) const { ++rec.calls; insertion(f, l, std::less<>{}, Id{}); return {this->id}; } };
template<class B> struct impl<1, B> : B { using B::B;
    template<class I, class C = std::less<>, class = itp<Id, I, C>> Res operator()(I f, I l, C c = {}) const { ++rec.calls; insertion(f, l, c, Id{}); return {this->id}; } };
template<class B> struct impl<2, B> : B { using B::B;
    template<class I, class C = std::less<>, class P = Id, class = itp<P, I, C>> Res operator()(I f, I l, C c = {}, P p = {}) const { ++rec.calls; insertion(f, l, c, p); return {this->id}; } };
template<class B> struct impl<3, B> : B { using B::B;
    template<class I, class P = Id, class = itp<P, I>> Res operator()(I f, I l, P p = {}) const { ++rec.calls; insertion(f, l, std::less<>{}, p); return {this->id}; } };
template<class B> struct impl<4, B> : impl<2, B> { using impl<2, B>::impl; using impl<2, B>::operator();
    template<class V, class C = std::less<>, class P = Id, class = rgp<P, V, C>> Res operator()(V&& v, C c = {}, P p = {}) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, c, p); return {this->id}; } };
template<class B> struct impl<5, B> : impl<1, B> { using impl<1, B>::impl; using impl<1, B>::operator();
    template<class V, class C = std::less<>, class = rgp<Id, V, C>> Res operator()(V&& v, C c = {}) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, c, Id{}); return {this->id}; } };
template<class B> struct impl<6, B> : impl<3, B> { using impl<3, B>::impl; using impl<3, B>::operator();
    template<class V, class P = Id, class = rgp<P, V>> Res operator()(V&& v, P p = {}) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, std::less<>{}, p); return {this->id}; } };
template<class B> struct impl<7, B> : impl<0, B> { using impl<0, B>::impl; using impl<0, B>::operator();
    template<class V> Res operator()(V&& v) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, std::less<>{}, Id{}); return {this->id}; } };
template<class B> struct impl<8, B> : impl<2, B> { using impl<2, B>::impl; using impl<2, B>::operator();
    template<class V> Res operator()(V&& v) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, std::less<>{}, Id{}); return {this->id}; } };
template<class B> struct impl<9, B> : impl<2, B> { using impl<2, B>::impl; using impl<2, B>::operator();
    template<class V, class C = std::less<>, class = rgp<Id, V, C>> Res operator()(V&& v, C c = {}) const { auto r = whole(v); ++rec.calls; insertion(r.first, r.second, c, Id{}); return {this->id}; } };
template<class B> struct impl<10, B> : impl<0, B> { using impl<0, B>::impl; using impl<0, B>::operator();
    template<class I, class C, class = itp<Id, I, C>> Res operator()(I f, I l, C c) const { ++rec.calls; insertion(f, l, c, Id{}); return {this->id}; } };
template<class B> struct impl<11, B> : impl<0, B> { using impl<0, B>::impl; using impl<0, B>::operator();
    template<class I, class P, class = itp<P, I>> Res operator()(I f, I l, P p) const { ++rec.calls; insertion(f, l, std::less<>{}, p); return {this->id}; } };
template<class B> struct impl<12, B> : impl<10, B> { using impl<10, B>::impl; using impl<10, B>::operator();
    template<class I, class C, class P, class = itp<P, I, C>> Res operator()(I f, I l, C c, P p) const { ++rec.calls; insertion(f, l, c, p); return {this->id}; } };

static constexpr bool COMPARES = G != 0 && G != 3 && G != 6 && G != 7 && G != 11, PROJECTS = G != 0 && G != 7, RANGES = G >= 4 && G <= 7;
struct XorLess { uint32_t x; bool operator()(uint32_t a, uint32_t b) const { return (a ^ x) < (b ^ x); } bool operator()(Q a, Q b) const { return (a.key ^ x) < (b.key ^ x); } };
struct AddKey { uint32_t y; uint32_t operator()(Q a) const { return (a.key + y) & 0xff; } };
// refinable functions: the refined ones are for exactly the value type, and can be told from the others
static unsigned g_plain;
struct RefLess { uint32_t x;
    template<class T> struct of { uint32_t x; bool operator()(const T& a, const T& b) const { return (a.key ^ x) < (b.key ^ x); } };
    template<class T, class = std::enable_if_t<std::is_same_v<T, Q>>> of<T> refine() const { return {x}; }
    bool operator()(Q a, Q b) const { ++g_plain; return (a.key ^ x) < (b.key ^ x); } };
struct RefAdd { uint32_t y;
    template<class T> struct of { uint32_t y; uint32_t operator()(const T& a) const { return (a.key + y) & 0xff; } };
    template<class T, class = std::enable_if_t<std::is_same_v<T, Q>>> of<T> refine() const { return {y}; }
    uint32_t operator()(Q a) const { ++g_plain; return (a.key + y) & 0xff; } };
struct AddQ { uint32_t y; Q operator()(Q a) const { return Q{(a.key + y) & 0xff, a.tag}; } };
struct AddRef { const Q& operator()(const Q& a) const { return a; } };

struct World { int n; uint8_t k[8], x, y; };
enum { SORTER_STATE = 42 };
template<class F, class Key, class S> void one(const World& w, const S& s, bool stateless, int shape, Key key, F f) {
    Q q[8]; for (int i = 0; i < w.n; ++i) q[i] = Q{w.k[i], (uint16_t)i};
    rec = Rec{0, false, false, nullptr}; sym_eager(1); const void* obj = nullptr; int id = f(q, q + w.n, obj); sym_eager(0);
    if (rec.calls != 1) sym_fail("the implementation was not called exactly once");
    if (id != (stateless ? 7 : SORTER_STATE)) sym_fail("the result or the state of the implementation was lost");
    if (rec.range != (RANGES && shape == 1) && !(G == 8 || G == 9)) sym_fail("the range overload of the implementation was not preferred");
    if (rec.range && obj && rec.obj != obj) sym_fail("the implementation was given another object than the range to sort");
    unsigned seen = 0; int ok = 1; for (int i = 0; i < w.n; ++i) { sym_observe(q[i].tag); seen |= 1u << q[i].tag; ok &= q[i].key == w.k[q[i].tag]; }
    if (seen != (1u << w.n) - 1) sym_fail("not a permutation of the input");
    for (int i = 0; i + 1 < w.n; ++i) { uint32_t a = key(q[i].key), b = key(q[i + 1].key); ok &= a <= b; if (q[i].tag > q[i + 1].tag) ok &= a != b; }
    sym_assert(ok, "the range is not sorted by the functions of the call");
}
template<class... A> using itfp = Res (*)(Q*, Q*, A...);
template<class Key, class... A> void all(const World& w, Key key, A... a) {
    using V = View<Q*, false>; using S = cs::sorter_facade<impl<G, base>>; using E = cs::sorter_facade<impl<G, empty_base>>;
    const S s(SORTER_STATE); S ms(SORTER_STATE); const E e{};
    one(w, s, false, 0, key, [&](Q* b, Q* l, const void*& o) { return s(b, l, a...).id; });
    one(w, s, false, 1, key, [&](Q* b, Q* l, const void*& o) { V v{b, l}; o = &v; return s(v, a...).id; });
    one(w, s, false, 1, key, [&](Q* b, Q* l, const void*& o) { return ms(V{b, l}, a...).id; });
    one(w, s, false, 1, key, [&](Q* b, Q* l, const void*& o) { const V v{b, l}; o = &v; return s(v, a...).id; });
    one(w, s, true, 0, key, [&](Q* b, Q* l, const void*& o) { return E{}(b, l, a...).id; });
    one(w, s, true, 0, key, [&](Q* b, Q* l, const void*& o) { Res (*f)(Q*, Q*, A...) = e; return f(b, l, a...).id; });
    one(w, s, true, 0, key, [&](Q* b, Q* l, const void*& o) { void (*f)(Q*, Q*, A...) = e; f(b, l, a...); return 7; });
    one(w, s, true, 1, key, [&](Q* b, Q* l, const void*& o) { Res (*f)(V&, A...) = e; V v{b, l}; o = &v; return f(v, a...).id; });
    one(w, s, true, 1, key, [&](Q* b, Q* l, const void*& o) { void (*f)(V&, A...) = e; V v{b, l}; o = &v; f(v, a...); return 7; });
    one(w, s, true, 1, key, [&](Q* b, Q* l, const void*& o) { Res (*f)(V&&, A...) = e; return f(V{b, l}, a...).id; });
    one(w, s, true, 1, key, [&](Q* b, Q* l, const void*& o) { void (*f)(const V&, A...) = e; const V v{b, l}; o = &v; f(v, a...); return 7; });
    static_assert(!std::is_convertible_v<S, void (*)(Q*, Q*, A...)>, "a sorter with state cannot become a function pointer");
}
extern "C" void e_facade(int form, int n) {
    World w; w.n = n; if (n) sym_bytes(w.k, n); w.x = u8(); w.y = u8(); g_plain = 0;
    auto plain = [](uint32_t k) { return k; };
    auto rev = [](uint32_t k) { return 255 - k; };
    auto xored = [x = w.x](uint32_t k) { return k ^ x; };
    auto added = [y = w.y](uint32_t k) { return (k + y) & 0xff; };
    auto both = [x = w.x, y = w.y](uint32_t k) { return ((k + y) & 0xff) ^ x; };
    XorLess C{w.x}; AddKey P{w.y}; std::less<> lt{}; Id id{};
    switch (form) {
    case 0: all(w, plain); break;
    case 1: all(w, plain, lt); break;
    case 2: all(w, plain, id); break;
    case 3: all(w, plain, lt, id); break;
    case 4: if constexpr (COMPARES) all(w, xored, C); break;
    case 5: if constexpr (COMPARES) all(w, xored, C, id); break;
    case 6: if constexpr (PROJECTS) all(w, added, P); break;
    case 7: if constexpr (PROJECTS) all(w, added, lt, P); break;
    case 8: if constexpr (COMPARES) all(w, both, C, P); break;
    case 9: if constexpr (COMPARES) all(w, rev, std::greater<>{}); break;
    case 10: if constexpr (COMPARES) all(w, rev, std::greater<>{}, &Q::key); break;
    case 11: if constexpr (PROJECTS) all(w, plain, &Q::key); break;
    case 12: if constexpr (COMPARES) { all(w, xored, RefLess{w.x}); if (g_plain) sym_fail("a function that can be refined was not refined for the value type"); } break;
    case 13: if constexpr (PROJECTS) { all(w, added, RefAdd{w.y}); all(w, added, lt, RefAdd{w.y}); if (g_plain) sym_fail("a function that can be refined was not refined for the value type"); } break;
    case 14: if constexpr (COMPARES) { all(w, both, RefLess{w.x}, AddQ{w.y}); all(w, both, C, RefAdd{w.y}); if (g_plain) sym_fail("a function that can be refined was not refined for the value type"); } break;
    case 15: if constexpr (COMPARES) { all(w, xored, RefLess{w.x}, AddRef{}); all(w, xored, RefLess{w.x}, id); if (g_plain) sym_fail("a function that can be refined was not refined for the value type"); } break;
#ifdef __cpp_lib_ranges
    case 16: all(w, plain, std::ranges::less{}); break;
    case 17: all(w, plain, std::identity{}); break;
    case 18: all(w, plain, lt, std::identity{}); break;
    case 19: if constexpr (PROJECTS) all(w, added, std::ranges::less{}, P); break;
    case 20: if constexpr (COMPARES) all(w, xored, C, std::identity{}); break;
    case 21: if constexpr (COMPARES) all(w, rev, std::ranges::greater{}, &Q::key); break;
    case 22: all(w, plain, std::ranges::less{}, std::identity{}); break;
    case 23: all(w, plain, std::ranges::less{}, id); break;
#endif
    default: break;
    }
    sym_assert(1, "done");
}
#endif
