// Index-pair helpers (PART 1), size (PART 2), iter_move / iter_swap dispatch (PART 3)
#include "common.h"
#include <array>
#include <cstring>
#include <string>
#include "cpp-sort/utility/sorting_networks.h"
#include "cpp-sort/utility/size.h"
#include "cpp-sort/utility/iter_move.h"
#include "cpp-sort/utility/functional.h"
using namespace vrt; namespace u = cppsort::utility;

#if PART == 1
// a value type with its own swap and no way to copy
struct Val { uint32_t key; uint8_t tag; Val() : key(0), tag(0) {} Val(Val&& o) : key(o.key), tag(o.tag) { o.tag = 0xee; } Val& operator=(Val&& o) { uint8_t t = o.tag; o.tag = 0xee; key = o.key; tag = t; return *this; } };
static unsigned g_swaps, g_comps;
struct Own { uint32_t key; uint8_t tag; Own() = default; Own(const Own&) = delete; Own& operator=(const Own&) = delete; };
void swap(Own& a, Own& b) { ++g_swaps; std::swap(a.key, b.key); std::swap(a.tag, b.tag); }
struct ByKey { template<class A> bool operator()(const A& a, const A& b) const { ++g_comps; return a.key < b.key; } };
struct Coarse { bool operator()(uint32_t a, uint32_t b) const { ++g_comps; return (a >> 3) > (b >> 3); } };     // many values are equivalent
struct Lie { template<class A> bool operator()(const A&, const A&) const { ++g_comps; return false; } };
struct Always { template<class A> bool operator()(const A& a, const A& b) const { ++g_comps; return !(a > b); } };       // not an order: helpers apply it all the same
struct Neg { float operator()(float a) const { return -a; } double operator()(double a) const { return -a; } template<class A> unsigned long long operator()(const A& a) const { return ~(unsigned long long)a; } };
template<class T> struct Raw { template<class A, class B> static bool same(const A* a, const B* b, int n) { int ok = 1; const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n * sizeof(T); ++i) ok &= x[i] == y[i]; return ok; } };
template<class T> void fill(T* p, int n) { sym_bytes(p, n * sizeof(T)); if (std::is_same<T, bool>::value) for (int i = 0; i < n; ++i) { uint8_t c; memcpy(&c, p + i, 1); sym_assume(c <= 1); } }
inline void fill(Val* p, int n) { for (int i = 0; i < n; ++i) { p[i].key = u32(); p[i].tag = (uint8_t)i; } }
inline void fill(Own* p, int n) { for (int i = 0; i < n; ++i) { p[i].key = u32(); p[i].tag = (uint8_t)i; } }
template<class T> void clone(T* d, const T* s, int n) { memcpy((void*)d, (const void*)s, n * sizeof(T)); }
template<class T> bool equal(const T* a, const T* b, int n) { return Raw<T>::same(a, b, n); }
inline bool equal(const Val* a, const Val* b, int n) { int ok = 1; for (int i = 0; i < n; ++i) ok &= a[i].key == b[i].key & a[i].tag == b[i].tag; return ok; }
inline bool equal(const Own* a, const Own* b, int n) { int ok = 1; for (int i = 0; i < n; ++i) ok &= a[i].key == b[i].key & a[i].tag == b[i].tag; return ok; }
enum { L = 4 };
template<size_t N, class T, class Ix, class C, class P> void apply(bool unroll, int form, C c, P p, bool def, int len) {
    T* v = (T*)sym_malloc(sizeof(T) * len); T* r = (T*)sym_malloc(sizeof(T) * len); for (int i = 0; i < len; ++i) { new (v + i) T; new (r + i) T; }
    fill(v, len); clone(r, v, len);
    std::array<u::index_pair<Ix>, N> ps; Rng q(form + 5); g_swaps = g_comps = 0;
    for (size_t i = 0; i < N; ++i) if (N <= 2) { ps[i].first = (Ix)sym_concretize(below(len)); ps[i].second = (Ix)sym_concretize(below(len)); } else { ps[i].first = (Ix)q.below(len); do ps[i].second = (Ix)q.below(len); while (form % 3 != 2 && ps[i].second == ps[i].first); if (form % 3 == 0 && ps[i].first > ps[i].second) std::swap(ps[i].first, ps[i].second); }
    auto&& cf = u::as_function(c); auto&& pf = u::as_function(p); unsigned done = 0;
    for (size_t i = 0; i < N; ++i) { T &a = r[ps[i].first], &b = r[ps[i].second]; if (sym_fork(cf(pf(b), pf(a)))) { if (&a != &b) { unsigned char t[sizeof(T)]; memcpy(t, (void*)&a, sizeof(T)); memcpy((void*)&a, (void*)&b, sizeof(T)); memcpy((void*)&b, t, sizeof(T)); } ++done; } }
    unsigned comps = g_comps; g_comps = 0; g_swaps = 0;
    const auto& cps = ps; sym_eager(1);
    if constexpr (std::is_same<C, std::less<>>::value && std::is_same<P, u::identity>::value) { if (def) { if (unroll) u::swap_index_pairs_force_unroll(v, cps); else u::swap_index_pairs(v, cps); goto end; } }
    if constexpr (std::is_same<P, u::identity>::value) { if (def) { if (unroll) u::swap_index_pairs_force_unroll(v, cps, c); else u::swap_index_pairs(v, cps, c); goto end; } }
    if (unroll) u::swap_index_pairs_force_unroll(Ra<T>(v), cps, c, p); else u::swap_index_pairs(Ra<T>(v), cps, c, p);
end:; sym_eager(0);
    sym_assert(equal(v, r, len), "the compare-exchanges were not applied as given");
    if (g_comps != comps) sym_fail("not one comparison per index pair");
    if (std::is_same<T, Own>::value && g_swaps != done) sym_fail("the element's swap was not used exactly when needed");
    sym_free(v); sym_free(r);
}
template<class T, class C, class P> void pairs(int un, int n, int form, C c, P p) {
    switch (n) {
    case 0: apply<0, T, unsigned char>(un, form, c, p, form & 1, L); break;
    case 1: apply<1, T, int>(un, form, c, p, form & 1, L); break;
    case 2: apply<2, T, size_t>(un, form, c, p, form & 1, 3); break;
    case 3: apply<5, T, signed char>(un, form, c, p, form & 1, 5); break;
    case 4: apply<7, T, std::ptrdiff_t>(un, form, c, p, form & 1, 6); break;
    }
}
template<class T> void kinds(int un, int n, int form, int k) {
    switch (k) {
    case 0: pairs<T>(un, n, form, std::less<>{}, u::identity{}); break;
    case 1: pairs<T>(un, n, form, std::greater<>{}, u::identity{}); break;
    case 2: pairs<T>(un, n, form, Always{}, u::identity{}); break;
    case 3: pairs<T>(un, n, form, std::less<>{}, Neg{}); break;
    case 4: pairs<T>(un, n, form, std::less<T>{}, u::identity{}); break;
#if __cplusplus > 201703L
    case 5: pairs<T>(un, n, form, std::less<>{}, std::identity{}); break;
    case 6: pairs<T>(un, n, form, std::greater<>{}, std::identity{}); break;
    case 7: pairs<T>(un, n, form, std::ranges::less{}, u::identity{}); break;
    case 8: pairs<T>(un, n, form, std::ranges::greater{}, u::identity{}); break;
    case 9: pairs<T>(un, n, form, std::ranges::less{}, std::identity{}); break;
    case 10: pairs<T>(un, n, form, std::ranges::greater{}, std::identity{}); break;
#endif
    }
}
extern "C" void e_pairs(int un, int n, int form, int k) {
#if G == 0
    kinds<int8_t>(un, n, form, k);
#elif G == 1
    kinds<uint16_t>(un, n, form, k);
#elif G == 2
    kinds<int>(un, n, form, k);
#elif G == 3
    kinds<uint64_t>(un, n, form, k);
#elif G == 4
    kinds<float>(un, n, form, k);
#elif G == 5
    kinds<double>(un, n, form, k);
#elif G == 6
    kinds<bool>(un, n, form, k);
#elif G == 7
    switch (k) {
    case 0: pairs<Val>(un, n, form, ByKey{}, u::identity{}); break;
    case 1: pairs<Val>(un, n, form, std::greater<>{}, &Val::key); break;
    case 2: pairs<Own>(un, n, form, ByKey{}, u::identity{}); break;
    case 3: pairs<Own>(un, n, form, Coarse{}, &Own::key); break;
    case 4: pairs<Own>(un, n, form, Lie{}, u::identity{}); break;
    case 5: pairs<uint32_t>(un, n, form, Coarse{}, u::identity{}); break;
    case 6: pairs<long long>(un, n, form, std::greater<>{}, u::identity{}); break;
    case 7: pairs<char>(un, n, form, std::less<>{}, u::identity{}); break;
    }
#endif
}
#endif

#if PART == 2
struct NonConst { uint32_t* p; int n; uint32_t* begin() { return p; } uint32_t* end() { return p + n; } };
struct OwnSize { uint32_t* p; int n; unsigned k; unsigned size() const { return k; } uint32_t* begin() { return p; } uint32_t* end() { return p + n; } };
struct OnlyConst { uint32_t* p; int n; const uint32_t* begin() const { return p; } const uint32_t* end() const { return p + n; } };
struct LazySize { uint32_t* p; int n; uint32_t size() { sym_fail("size() of a const-correct size is not callable here"); } const uint32_t* begin() const { return p; } const uint32_t* end() const { return p + n; } };   // size() is not const: not a size method
template<class T, class X> void is(const T& got, X want) { sym_assert((unsigned long long)got == (unsigned long long)want, "utility::size is not the number of elements"); }
extern "C" void e_size(int which) {
    int n = (int)sym_concretize(below(9)); std::vector<uint32_t> back(n); for (auto& x : back) x = u32();
    switch (which) {
    case 0: { is(u::size(back), n); const auto& c = back; is(u::size(c), n); break; }
    case 1: { std::list<uint32_t> l(back.begin(), back.end()); is(u::size(l), n); const auto& c = l; is(u::size(c), n); break; }
    case 2: { std::forward_list<uint32_t> l(back.begin(), back.end()); is(u::size(l), n); const auto& c = l; is(u::size(c), n); break; }
    case 3: { uint32_t a[7]; const uint32_t b[1] = {3}; is(u::size(a), 7); is(u::size(b), 1); const auto& ca = a; is(u::size(ca), 7); int m[3][5]; is(u::size(m), 3); is(u::size(m[0]), 5); is(u::size("abc"), 4); break; }
    case 4: { NonConst x{back.data(), n}; is(u::size(x), n); break; }
    case 5: { unsigned k = u32(); OwnSize x{back.data(), n, k}; is(u::size(x), k); const auto& c = x; is(u::size(c), k); break; }
    case 6: { OnlyConst x{back.data(), n}; is(u::size(x), n); const auto& c = x; is(u::size(c), n); is(u::size(OnlyConst{back.data(), n}), n); break; }
    case 7: { LazySize x{back.data(), n}; is(u::size(x), n); const auto& c = x; is(u::size(c), n); break; }
    case 8: { std::array<int, 0> z; std::array<int, 6> a; is(u::size(z), 0); is(u::size(a), 6); std::string s(n, 'x'); is(u::size(s), n); is(u::size(std::vector<bool>(n)), n); break; }
    case 9: { constexpr int k[4] = {}; constexpr auto z = u::size(k); is(z, 4); std::array<int, 3> a{}; is(u::size(a), 3); break; }
    }
}
#endif

#if PART == 3
static unsigned g_m, g_s, g_elem;
struct El { uint32_t v; El(uint32_t x = 0) : v(x) {} El(El&& o) : v(o.v) { ++g_elem; o.v = 0xdead; } El& operator=(El&& o) { ++g_elem; v = o.v; if (&o != this) o.v = 0xdead; return *this; } };
namespace sw { static unsigned swaps; struct S { uint32_t v; S(uint32_t x = 0) : v(x) {} S(const S&) = delete; S& operator=(const S&) = delete; }; void swap(S& a, S& b) { ++swaps; uint32_t t = a.v; a.v = b.v; b.v = t; } }
template<int How> struct I : Ra<El> { using Ra<El>::Ra; I() = default; I(Ra<El> b) : Ra<El>(b) {} using difference_type = std::ptrdiff_t; using value_type = El; using reference = El&; using pointer = El*; using iterator_category = std::random_access_iterator_tag;
    I& operator++() { ++p; return *this; } I operator++(int) { I r = *this; ++p; return r; } I& operator--() { --p; return *this; } I operator--(int) { I r = *this; --p; return r; }
    I& operator+=(difference_type d) { p += d; return *this; } I& operator-=(difference_type d) { p -= d; return *this; } friend I operator+(I a, difference_type d) { a.p += d; return a; } friend I operator-(I a, difference_type d) { a.p -= d; return a; } friend difference_type operator-(const I& a, const I& b) { return a.p - b.p; } };
El iter_move(I<1> i) { ++g_m; return std::move(*i.p); }
El&& iter_move(I<3> i) { ++g_m; return std::move(*i.p); }
void iter_swap(I<2> a, I<2> b) { ++g_s; std::swap(a.p->v, b.p->v); }
void iter_swap(I<3> a, I<3> b) { ++g_s; std::swap(a.p->v, b.p->v); }
template<class It, class T> void swaps(T* v, uint32_t* x, int n, It a, It b, int ia, int ib, const char* what) {
    using u::iter_swap; iter_swap(a, b); std::swap(x[ia], x[ib]);
    int ok = 1; for (int i = 0; i < n; ++i) ok &= v[i].v == x[i]; sym_assert(ok, what);
}
template<int How> void how() {
    enum { n = 4 }; El v[n]; uint32_t x[n]; for (int i = 0; i < n; ++i) v[i].v = x[i] = u32();
    int a = (int)sym_concretize(below(n)), b = (int)sym_concretize(below(n)); using It = I<How>; It f(v); g_m = g_s = g_elem = 0;
    const unsigned ms = How == 1, ss = How >= 2;
    auto counts = [&](unsigned m, unsigned s, bool adaptor = true) { if (How == 1 && adaptor && __cplusplus > 201703L) return;   // the standard library's own iter_swap of the adaptors prefers a swap of the elements
        if (g_m != m || g_s != s) sym_fail("iter_swap did not go through the functions of the iterator"); if (ss && g_elem) sym_fail("iter_swap moved elements although the iterator swaps them"); g_m = g_s = g_elem = 0; };
    if (a == b && How == 1) { }         // an iter_move-based self-swap goes through a moved-from element, which is assigned back
    swaps(v, x, n, f + a, f + b, a, b, "iter_swap did not swap the two elements"); counts(2 * ms, ss, false);
    using R = std::reverse_iterator<It>; swaps(v, x, n, R(f + a + 1), R(f + b + 1), a, b, "iter_swap of reverse iterators did not swap the two elements"); counts(2 * ms, ss);
    using M = std::move_iterator<It>; swaps(v, x, n, M(f + a), M(f + b), a, b, "iter_swap of move iterators did not swap the two elements"); counts(2 * ms, ss);
    using RR = std::reverse_iterator<R>; swaps(v, x, n, RR(R(f + a)), RR(R(f + b)), a, b, "iter_swap of doubly reversed iterators did not swap the two elements"); counts(2 * ms, ss);
    // iter_move
    const unsigned mm = How == 1 || How == 3;
    using u::iter_move;
    { El t = iter_move(f + a); int ok = t.v == x[a]; sym_assert(ok, "iter_move gave another element"); if (g_m != mm) sym_fail("the iterator's iter_move was not used"); v[a].v = x[a]; g_m = 0; }
    { El t = iter_move(R(f + a + 1)); int ok = t.v == x[a]; sym_assert(ok, "iter_move of a reverse iterator gave another element"); if (g_m != mm) sym_fail("the iterator's iter_move was not used through a reverse iterator"); v[a].v = x[a]; g_m = 0; }
    { El t = iter_move(M(f + a)); int ok = t.v == x[a]; sym_assert(ok, "iter_move of a move iterator gave another element"); if (g_m != mm) sym_fail("the iterator's iter_move was not used through a move iterator"); v[a].v = x[a]; g_m = 0; }
    int ok = 1; for (int i = 0; i < n; ++i) ok &= v[i].v == x[i]; sym_assert(ok, "iter_move touched another element");
}
extern "C" void e_dispatch(int which) {
    switch (which) {
    case 0: {           // elements with their own swap
        sw::S v[3]; uint32_t x[3]; for (int i = 0; i < 3; ++i) v[i].v = x[i] = u32(); int a = (int)sym_concretize(below(3)), b = (int)sym_concretize(below(3)); sw::swaps = 0;
        swaps(v, x, 3, v + a, v + b, a, b, "iter_swap did not swap the two elements"); swaps(v, x, 3, Ra<sw::S>(v + a), Ra<sw::S>(v + b), a, b, "iter_swap did not swap the two elements");
        swaps(v, x, 3, std::make_reverse_iterator(v + a + 1), std::make_reverse_iterator(v + b + 1), a, b, "iter_swap of reverse iterators did not swap the two elements");
        if (sw::swaps != 3) sym_fail("iter_swap did not use the swap of the elements"); break; }
    case 1: how<0>(); break; case 2: how<1>(); break; case 3: how<2>(); break; case 4: how<3>(); break;
    case 5: {           // vector<bool>
        std::vector<bool> v(70); bool x[70]; for (int i = 0; i < 70; ++i) { x[i] = i % 3 == 1; v[i] = x[i]; } int a = (int)sym_concretize(below(70)), b = 65; bool p = u8() & 1, q = u8() & 1; v[a] = x[a] = p; v[b] = x[b] = q;
        { using u::iter_swap; iter_swap(v.begin() + a, v.begin() + b); } std::swap(x[a], x[b]);
        { using u::iter_move; auto t = iter_move(v.begin() + a); static_assert(std::is_same<decltype(t), bool>::value || std::is_same<decltype(t), std::vector<bool>::reference>::value, ""); bool r = t; sym_assert(r == x[a], "iter_move gave another element"); }
        int ok = 1; for (int i = 0; i < 70; ++i) ok &= bool(v[i]) == x[i]; sym_assert(ok, "iter_swap of vector<bool> iterators did not swap the two bits"); break; }
    case 6: {           // what iter_move returns
        int k[3]; for (int& z : k) z = (int)u32(); const int* ck = k;
        static_assert(std::is_same<decltype(u::iter_move(k)), int&&>::value, ""); static_assert(std::is_same<decltype(u::iter_move(ck)), const int&&>::value, "");
        static_assert(std::is_same<u::rvalue_reference_t<int*>, int&&>::value, "");
        int&& r = u::iter_move(k + 1); sym_assert(&r == k + 1 && r == k[1], "iter_move does not refer to the element"); const int&& s = u::iter_move(ck + 2); sym_assert(&s == k + 2, "iter_move does not refer to the element"); break; }
    }
}
#endif
