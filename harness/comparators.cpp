// C11: -DORD; C12: -DSTRORD; C13: -DADAPT
#include "common.h"
#include <cstring>
#include <string>
#include <string_view>
#include <tuple>
using namespace vrt;

#ifdef ORD
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/partial_greater.h>
namespace {
    // a floating-point value taken apart
    struct Place { bool neg, nan; uint64_t mag; };
    Place place(int bits, uint64_t b, int zeros) { uint64_t inf = bits == 32 ? 0x7f800000u : 0x7ff0000000000000ull; Place p; p.neg = b >> (bits - 1); p.mag = b & (bits == 32 ? 0x7fffffffu : 0x7fffffffffffffffull); p.nan = p.mag > inf; if (p.nan) p.mag = inf + 1; if (!zeros && p.mag == 0) p.neg = false; return p; }
    bool before(const Place& a, const Place& b) { if (a.neg) { if (!b.neg) return true; return b.mag < a.mag; } if (b.neg) return false; return a.mag < b.mag; }
    template<class T> T mk(uint64_t& b) { T f; if (sizeof(T) == 4) { uint32_t x = u32(); b = x; std::memcpy(&f, &x, 4); } else { b = u64(); std::memcpy(&f, &b, sizeof f); } return f; }
    // which: 0 total, 1 weak, 2 partial; how: value categories of the arguments
    template<class T> bool lt(int which, int how, T a, T b) {
        const T ca = a, cb = b;
        switch (which * 4 + how) {
        case 0: return cppsort::total_less(a, b); case 1: return cppsort::total_less(ca, b); case 2: return cppsort::total_less(T(a), cb); case 3: return cppsort::total_less_t{}(a, T(b));
        case 4: return cppsort::weak_less(a, b); case 5: return cppsort::weak_less(ca, b); case 6: return cppsort::weak_less(T(a), cb); case 7: return cppsort::weak_less_t{}(a, T(b));
        case 8: return cppsort::partial_less(a, b); case 9: return cppsort::partial_less(ca, b); case 10: return cppsort::partial_less(T(a), cb); default: return cppsort::partial_less_t{}(a, T(b));
        }
    }
    template<class T> bool gt(int which, int how, T a, T b) {
        const T ca = a, cb = b;
        switch (which * 4 + how) {
        case 0: return cppsort::total_greater(a, b); case 1: return cppsort::total_greater(ca, b); case 2: return cppsort::total_greater(T(a), cb); case 3: return cppsort::total_greater_t{}(a, T(b));
        case 4: return cppsort::weak_greater(a, b); case 5: return cppsort::weak_greater(ca, b); case 6: return cppsort::weak_greater(T(a), cb); case 7: return cppsort::weak_greater_t{}(a, T(b));
        case 8: return cppsort::partial_greater(a, b); case 9: return cppsort::partial_greater(ca, b); case 10: return cppsort::partial_greater(T(a), cb); default: return cppsort::partial_greater_t{}(a, T(b));
        }
    }
    template<class T> void fp_pair(int which, int how) {
        uint64_t x, y; T a = mk<T>(x), b = mk<T>(y);
        bool l = lt(which, how, a, b), g = gt(which, how, a, b);
        sym_eager(1); Place p = place(sizeof(T) * 8, x, which == 0), q = place(sizeof(T) * 8, y, which == 0); int any = p.nan | q.nan;
        bool el = which == 2 && any ? false : before(p, q), eg = which == 2 && any ? false : before(q, p);
        sym_assert(l == el, "less does not follow the documented order"); sym_assert(g == eg, "greater does not follow the documented order");
    }
    template<class T> void axioms(int which) {
        uint64_t t; T a = mk<T>(t), b = mk<T>(t), c = mk<T>(t);
        bool ab = lt(which, 0, a, b), ba = lt(which, 0, b, a), bc = lt(which, 0, b, c), cb = lt(which, 0, c, b), ac = lt(which, 0, a, c), ca = lt(which, 0, c, a), aa = lt(which, 0, a, a);
        sym_assert(!aa, "not irreflexive"); sym_assert(!(ab & ba), "not asymmetric"); sym_assert(!(ab & bc) | ac, "not transitive");
        if (which < 2) sym_assert((ab | ba | bc | cb) | !(ac | ca), "equivalence is not transitive");
        sym_assert(gt(which, 0, a, b) == ba, "greater is not less with its arguments exchanged");
    }
    template<class T> void int_pair(int how) {
        T a, b; sym_bytes(&a, sizeof a); sym_bytes(&b, sizeof b);
        for (int w = 0; w < 3; ++w) { sym_assert(lt(w, how, a, b) == (a < b), "less on integers differs from the operator"); sym_assert(gt(w, how, a, b) == (a > b), "greater on integers differs from the operator"); }
    }
    void bool_pair(int how) { bool a = u8() & 1, b = u8() & 1; for (int w = 0; w < 3; ++w) { sym_assert(lt(w, how, a, b) == (a < b), "less on bool differs from the operator"); sym_assert(gt(w, how, a, b) == (a > b), "greater on bool differs from the operator"); } }
    // user types at each customisation level
    struct Tot { uint8_t v; friend bool total_less(const Tot& a, const Tot& b) { return a.v < b.v; } friend bool total_greater(const Tot& a, const Tot& b) { return a.v > b.v; } };
    struct Wk { uint8_t v; friend bool weak_less(const Wk& a, const Wk& b) { return a.v / 2 < b.v / 2; } friend bool weak_greater(const Wk& a, const Wk& b) { return a.v / 2 > b.v / 2; } };
    struct Pa { uint8_t v; friend bool partial_less(const Pa& a, const Pa& b) { return a.v < 200 && b.v < 200 && a.v < b.v; } friend bool partial_greater(const Pa& a, const Pa& b) { return a.v < 200 && b.v < 200 && a.v > b.v; } };
}
extern "C" void e_fp(int dbl, int which, int how) { if (dbl) fp_pair<double>(which, how); else fp_pair<float>(which, how); }
extern "C" void e_ax(int dbl, int which) { if (dbl) axioms<double>(which); else axioms<float>(which); }
extern "C" void e_int(int type, int how) {
    switch (type) { case 0: int_pair<signed char>(how); break; case 1: int_pair<unsigned char>(how); break; case 2: int_pair<char>(how); break; case 3: int_pair<short>(how); break; case 4: int_pair<unsigned short>(how); break; case 5: int_pair<int>(how); break; case 6: int_pair<unsigned>(how); break; case 7: int_pair<long>(how); break; case 8: int_pair<unsigned long>(how); break; case 9: int_pair<char16_t>(how); break; case 10: int_pair<char32_t>(how); break; case 11: int_pair<wchar_t>(how); break; case 12: int_pair<__int128>(how); break; case 13: int_pair<unsigned __int128>(how); break; case 14: int_pair<long long>(how); break; default: bool_pair(how); }
}
extern "C" void e_user(int) {
    uint8_t a = u8(), b = u8(); using namespace cppsort;
    sym_assert(cppsort::total_less(Tot{a}, Tot{b}) == (a < b) && cppsort::weak_less(Tot{a}, Tot{b}) == (a < b) && cppsort::partial_less(Tot{a}, Tot{b}) == (a < b), "the orders do not fall back to the user's total_less");
    sym_assert(cppsort::total_greater(Tot{a}, Tot{b}) == (a > b) && cppsort::weak_greater(Tot{a}, Tot{b}) == (a > b) && cppsort::partial_greater(Tot{a}, Tot{b}) == (a > b), "the orders do not fall back to the user's total_greater");
    sym_assert(cppsort::weak_less(Wk{a}, Wk{b}) == (a / 2 < b / 2) && cppsort::partial_less(Wk{a}, Wk{b}) == (a / 2 < b / 2), "the orders do not fall back to the user's weak_less");
    sym_assert(cppsort::weak_greater(Wk{a}, Wk{b}) == (a / 2 > b / 2) && cppsort::partial_greater(Wk{a}, Wk{b}) == (a / 2 > b / 2), "the orders do not fall back to the user's weak_greater");
    bool in = a < 200 && b < 200; sym_assert(cppsort::partial_less(Pa{a}, Pa{b}) == (in && a < b) && cppsort::partial_greater(Pa{a}, Pa{b}) == (in && a > b), "partial_less and partial_greater do not use the user's functions");
}
#endif

#ifdef STRORD
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <array>
namespace {
    // ---- natural order, from the definition: strings are sequences of numbers and other characters
    struct Tok { bool num; const char* b; int len; };
    int tokens(const char* s, int n, Tok* t) {
        int k = 0, i = 0;
        while (i < n) { if (s[i] >= '0' && s[i] <= '9') { int j = i; while (j < n && s[j] >= '0' && s[j] <= '9') ++j; while (i < j && s[i] == '0') ++i; t[k++] = Tok{true, s + i, j - i}; i = j; } else { t[k++] = Tok{false, s + i, 1}; ++i; } }
        return k;
    }
    int cmp_tok(const Tok& a, const Tok& b) {
        if (a.num && b.num) { if (a.len != b.len) return a.len < b.len ? -1 : 1; for (int i = 0; i < a.len; ++i) if (a.b[i] != b.b[i]) return a.b[i] < b.b[i] ? -1 : 1; return 0; }
        char x = a.num ? '0' : *a.b, y = b.num ? '0' : *b.b; return x < y ? -1 : x > y ? 1 : 0;
    }
    bool ref_natural(const char* a, int n, const char* b, int m) {
        Tok s[16], t[16]; int k = tokens(a, n, s), l = tokens(b, m, t);
        for (int i = 0; i < k && i < l; ++i) { int c = cmp_tok(s[i], t[i]); if (c) return c < 0; }
        return k < l;
    }
    struct CS { char c[12]; int n; };
    // alpha 0: all 256 characters; 1: one of 0 1 9 a; 2: one of 0 1 a and a character under '0'
    CS str(int n, int alpha) { CS s; s.n = n; for (int i = 0; i < n; ++i) { uint8_t x = u8(); if (alpha == 0) s.c[i] = (char)x; else { sym_assume(x < 4); s.c[i] = alpha == 1 ? "019a"[sym_concretize(x)] : "01a "[sym_concretize(x)]; } } return s; }
    template<std::size_t N> struct Arr { char a[N]; };
    bool nat(int kind, const CS& a, const CS& b) {
        switch (kind) {
        case 0: return cppsort::natural_less(std::string(a.c, a.n), std::string(b.c, b.n));
        case 1: return cppsort::natural_less(std::string_view(a.c, a.n), std::string_view(b.c, b.n));
        case 2: { std::vector<char> v(a.c, a.c + a.n); std::list<char> l(b.c, b.c + b.n); return cppsort::natural_less(v, l); }
        case 3: { std::forward_list<char> v(a.c, a.c + a.n); const std::string l(b.c, b.n); return cppsort::natural_less(v, l); }
        case 4: { std::array<char, 3> x; std::array<char, 3> y; for (int i = 0; i < 3; ++i) x[i] = a.c[i], y[i] = b.c[i]; return cppsort::natural_less(x, y); }
        case 5: { char x[3], y[3]; for (int i = 0; i < 3; ++i) x[i] = a.c[i], y[i] = b.c[i]; return cppsort::natural_less(x, y); }
        default: { // exactly sized heap storage: reads outside are seen
            char* x = (char*)sym_malloc(a.n); char* y = (char*)sym_malloc(b.n); std::memcpy(x, a.c, a.n); std::memcpy(y, b.c, b.n); bool r = cppsort::natural_less(std::string_view(x, a.n), std::string_view(y, b.n)); sym_free(x); sym_free(y); return r; }
        }
    }
}
extern "C" void e_nat(int kind, int n, int m, int alpha) { CS a = str(n, alpha), b = str(m, alpha); bool r = nat(kind, a, b); sym_eager(1); bool e = ref_natural(a.c, n, b.c, m); sym_assert(r == e, "natural_less does not compare numbers by value and other characters in order"); }
extern "C" void e_nat3(int kind, int n, int m, int l, int alpha) {
    CS a = str(n, alpha), b = str(m, alpha), c = str(l, alpha); sym_eager(1);
    bool ab = nat(kind, a, b), ba = nat(kind, b, a), bc = nat(kind, b, c), cb = nat(kind, c, b), ac = nat(kind, a, c), ca = nat(kind, c, a);
    sym_assert(!nat(kind, a, a), "natural_less is not irreflexive"); sym_assert(!(ab && ba), "natural_less is not asymmetric"); sym_assert(!(ab && bc) || ac, "natural_less is not transitive");
    sym_assert(ab || ba || bc || cb || !(ac || ca), "equivalence under natural_less is not transitive");
}

// ---- case-insensitive order, for a character type of our own and any folding function
extern "C" void vrt_other_locale(void*);
enum class Ch : unsigned char {};
static uint8_t g_fold[2][4]; static unsigned g_folds;
namespace std { template<> class ctype<Ch> { public: int which; Ch tolower(Ch c) const { ++g_folds; return (Ch)g_fold[which][(unsigned char)c & 3]; } }; }
static_assert(sizeof(std::locale) == 8, "");
static uint64_t id_of(const std::locale& l) { uint64_t x; std::memcpy(&x, &l, 8); return x; }
static unsigned g_facets; static const std::ctype<Ch> g_ctype[2] = {{0}, {1}};
// the facet of the global locale is the first, that of any other the second
namespace std { template<> const ctype<Ch>& use_facet<ctype<Ch>>(const locale& l) { std::locale g; ++g_facets; return g_ctype[id_of(l) != id_of(g)]; } }
namespace {
    template<class S> S mks(const uint8_t* p, int n) { S s; for (int i = 0; i < n; ++i) s.insert(s.end(), (Ch)p[i]); return s; }
    bool ref_ci(const uint8_t* a, int n, const uint8_t* b, int m, int w) { for (int i = 0; i < n && i < m; ++i) { uint8_t x = g_fold[w][a[i]], y = g_fold[w][b[i]]; if (x != y) return x < y; } return n < m; }
    struct Own2 { uint8_t v; friend bool case_insensitive_less(const Own2& a, const Own2& b) { return a.v / 4 < b.v / 4; } Ch* begin() const; Ch* end() const; };
    struct Own3 { uint8_t v; friend bool case_insensitive_less(const Own3& a, const Own3& b, const std::locale& l) { std::locale g; return id_of(l) == id_of(g) ? a.v / 4 < b.v / 4 : a.v > b.v; } Ch* begin() const { return nullptr; } Ch* end() const { return nullptr; } };
    bool ci(int kind, int w, const uint8_t* a, int n, const uint8_t* b, int m) {
        alignas(std::locale) unsigned char mem[8]; vrt_other_locale(mem); std::locale& other = *(std::locale*)mem; bool r = false;
        using V = std::vector<Ch>; using L = std::list<Ch>; V va = mks<V>(a, n), vb = mks<V>(b, m);
        switch (kind) {
        case 0: r = w ? cppsort::case_insensitive_less(other)(va, vb) : cppsort::case_insensitive_less(va, vb); break;
        case 1: if (w) r = cppsort::refined<V>(cppsort::case_insensitive_less(other))(va, vb); else r = cppsort::refined<V>(cppsort::case_insensitive_less)(va, vb); break;
        case 2: if (w) r = cppsort::refined<V>(cppsort::case_insensitive_less)(other)(va, vb); else r = cppsort::case_insensitive_less.refine<V>()(va, vb); break;
        case 3: { L la = mks<L>(a, n), lb = mks<L>(b, m); r = w ? cppsort::case_insensitive_less(other)(la, lb) : cppsort::case_insensitive_less_t{}(la, lb); break; }
        case 4: { using F = std::forward_list<Ch>; F fa, fb; for (int i = n; i-- > 0;) fa.push_front((Ch)a[i]); for (int i = m; i-- > 0;) fb.push_front((Ch)b[i]); if (w) r = cppsort::refined<F>(cppsort::case_insensitive_less(other))(fa, fb); else r = cppsort::refined<F>(cppsort::case_insensitive_less)(fa, fb); break; }
        case 5: {   // through a sorter, which refines the comparator: the second string comes first only if it is less
            std::vector<V> x(2); x[0] = vb; x[1] = va; const V* keep = nullptr; (void)keep; unsigned f0 = g_facets;
            if (w) cppsort::insertion_sort(x, cppsort::case_insensitive_less(other)); else cppsort::insertion_sort(x, cppsort::case_insensitive_less);
            if (g_facets != f0 + 1) sym_fail("a sorter does not refine the comparator: the facet is looked up for every comparison");
            // x[0] is vb if it was not moved; vb and va may be equivalent, then they stay in place
            r = !(x[0] == vb); break; }
        default: r = w ? cppsort::case_insensitive_less(other)(mks<std::basic_string<Ch>>(a, n), mks<std::basic_string<Ch>>(b, m)) : false;
        }
        other.~locale(); return r;
    }
    void table() { for (int w = 0; w < 2; ++w) for (int i = 0; i < 4; ++i) g_fold[w][i] = u8(); }
    void chars(uint8_t* p, int n) { for (int i = 0; i < n; ++i) { uint8_t x = below(4); p[i] = (uint8_t)sym_concretize(x); } }
}
extern "C" void e_ci(int kind, int w, int n, int m) {
    table(); uint8_t a[8], b[8]; chars(a, n); chars(b, m); bool r = ci(kind, w, a, n, b, m); sym_eager(1); bool e = ref_ci(a, n, b, m, w);
    if (kind == 5 && n == m) { bool same = true; for (int i = 0; i < n; ++i) same &= a[i] == b[i]; if (same) { sym_assert(!e, "case_insensitive_less orders a string before itself"); return; } }
    sym_assert(r == e, "case_insensitive_less is not the lexicographic order of the folded characters");
}
// user types with their own order, called plainly and refined
extern "C" void e_ciown(int) {
    uint8_t a = u8(), b = u8(); alignas(std::locale) unsigned char mem[8]; vrt_other_locale(mem); std::locale& other = *(std::locale*)mem;
    Own2 p{a}, q{b}; Own3 s{a}, t{b};
    sym_assert(cppsort::case_insensitive_less(p, q) == (a / 4 < b / 4), "case_insensitive_less does not use the user's function");
    sym_assert(cppsort::refined<Own2>(cppsort::case_insensitive_less)(p, q) == (a / 4 < b / 4), "the refined case_insensitive_less does not use the user's function");
    sym_assert(cppsort::case_insensitive_less(s, t) == (a / 4 < b / 4), "case_insensitive_less does not use the user's function for a locale");
    sym_assert(cppsort::case_insensitive_less(other)(s, t) == (a > b), "case_insensitive_less with a locale does not pass it to the user's function");
    sym_assert(cppsort::refined<Own3>(cppsort::case_insensitive_less)(s, t) == (a / 4 < b / 4), "the refined case_insensitive_less does not use the user's function for a locale");
    sym_assert(cppsort::refined<Own3>(cppsort::case_insensitive_less(other))(s, t) == (a > b) && cppsort::refined<Own3>(cppsort::case_insensitive_less)(other)(s, t) == (a > b), "the refined case_insensitive_less with a locale does not pass it to the user's function");
    other.~locale();
}
#endif

#ifdef ADAPT
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/as_function.h>
namespace {
    // any binary relation between the numbers 0 to 2 (as ints) and any map of them: both free
    uint8_t rel_[9], map_[3], map2_[3];
    struct Rel { template<class A, class B> bool operator()(const A& a, const B& b) const { return rel_[(int)a * 3 + (int)b]; } };
    // keeps state and tells the type of its arguments
    struct Rel2 { uint8_t t; bool operator()(int a, const short& b) const { return t & (1 << (a * 3 + b)); } bool operator()(short a, int b) const { return t & (1 << (b * 3 + a)); } };
    struct Map { uint8_t m[3]; template<class A> int operator()(const A& a) const { return m[(int)a]; } };
    struct W { int a, b; int get() const { return b; } bool lt(const W& o) const { return rel_[a * 3 + o.a]; } };
    bool free_rel(int a, int b) { return rel_[a * 3 + b]; }
    int free_map(int a) { return map_[a]; }
    template<class F, class A, class B> bool all4(const F& f0, A a, B b, int how) { F f(f0); const F cf(f0); switch (how) { case 0: return f(a, b); case 1: return cf(a, b); case 2: return std::move(f)(a, b); case 3: return std::move(cf)(a, b); case 4: return f(A(a), B(b)); default: return F(f0)(A(a), B(b)); } }
    template<class F, class A> int all4p(const F& f0, A a, int how) { F f(f0); const F cf(f0); switch (how) { case 0: return f(a); case 1: return cf(a); case 2: return std::move(f)(a); case 3: return std::move(cf)(a); case 4: return f(A(a)); default: return F(f0)(A(a)); } }
    void setup() { for (auto& x : rel_) x = u8() & 1; for (auto& x : map_) x = below(3); for (auto& x : map2_) x = below(3); }
}
template<class A, class B> struct same_t { static constexpr bool value = false; }; template<class A> struct same_t<A, A> { static constexpr bool value = true; };
extern "C" void e_adapt(int which, int how) {
    using namespace cppsort; namespace u = cppsort::utility; setup(); int a = below(3), b = below(3); Rel r; Map p{{map_[0], map_[1], map_[2]}}; Map p2{{map2_[0], map2_[1], map2_[2]}};
    bool ab = rel_[a * 3 + b], ba = rel_[b * 3 + a], pab = rel_[map_[a] * 3 + map_[b]], pba = rel_[map_[b] * 3 + map_[a]]; const char* m = "an adapted comparator or projection does not mean what it says";
    W x{a, b}, y{b, a};
    switch (which) {
    case 0: sym_assert(all4(flip(r), a, b, how) == ba, m); sym_assert(all4(flip_t<Rel>(r), a, b, how) == ba, m); break;
    case 1: sym_assert(all4(not_fn(r), a, b, how) == !ab, m); sym_assert(all4(not_fn_t<Rel>(r), a, b, how) == !ab, m); break;
    case 2: sym_assert(all4(flip(flip(r)), a, b, how) == ab, m); sym_assert(all4(flip_t<flip_t<Rel>>(flip_t<Rel>(r)), a, b, how) == ab, m); break;
    case 3: sym_assert(all4(not_fn(not_fn(r)), a, b, how) == ab, m); sym_assert(all4(not_fn_t<not_fn_t<Rel>>(not_fn_t<Rel>(r)), a, b, how) == ab, m); break;
    case 4: sym_assert(all4(flip(not_fn(r)), a, b, how) == !ba, m); sym_assert(all4(not_fn(flip(r)), a, b, how) == !ba, m); break;
    case 5: sym_assert(all4(flip(not_fn(flip(r))), a, b, how) == !ab, m); sym_assert(all4(not_fn(flip(not_fn(r))), a, b, how) == ba, m); break;
    case 6: { auto c = make_projection_compare(r, p); sym_assert(all4(c, a, b, how) == pab, m); sym_assert(all4(flip(c), a, b, how) == pba, m); sym_assert(all4(not_fn(c), a, b, how) == !pab, m); sym_assert(all4(flip(flip(c)), a, b, how) == pab, m); sym_assert(all4(not_fn(not_fn(c)), a, b, how) == pab, m); break; }
    case 7: { auto c = make_projection_compare(r, p); sym_assert(all4(flip(not_fn(c)), a, b, how) == !pba, m); sym_assert(all4(not_fn(flip(c)), a, b, how) == !pba, m); sym_assert(all4(not_fn(flip(not_fn(c))), a, b, how) == pba, m); sym_assert(all4(flip(not_fn(flip(c))), a, b, how) == !pab, m); break; }
    case 8: { auto c = make_projection_compare(make_projection_compare(r, p), p2); int qa = map_[map2_[a]], qb = map_[map2_[b]]; sym_assert(all4(c, a, b, how) == rel_[qa * 3 + qb], m); sym_assert(all4(flip(c), a, b, how) == rel_[qb * 3 + qa], m); sym_assert(all4(not_fn(c), a, b, how) == !rel_[qa * 3 + qb], m); break; }
    case 9: sym_assert(all4(make_projection_compare(r, u::identity{}), a, b, how) == ab, m); sym_assert(all4(make_projection_compare(flip(r), u::identity{}), a, b, how) == ba, m); break;
    case 10: sym_assert(all4(make_projection_compare(r, &W::a), x, y, how) == ab, m); sym_assert(all4(make_projection_compare(r, &W::get), x, y, how) == ba, m); sym_assert(all4(flip(&W::lt), x, y, how) == ba, m); sym_assert(all4(not_fn(&W::lt), x, y, how) == !ab, m); sym_assert(all4(not_fn(flip(&W::lt)), x, y, how) == !ba, m); break;
    case 11: { Rel2 q{(uint8_t)(map_[0] * 64 + map_[1] * 16 + map_[2] + map2_[0] * 4)}; short s = (short)b; sym_assert(all4(flip(q), s, a, how) == q(a, s), m); sym_assert(all4(flip(q), a, s, how) == q(s, a), m); sym_assert(all4(not_fn(q), a, s, how) == !q(a, s), m); sym_assert(all4(flip(not_fn(q)), a, s, how) == !q(s, a), m); break; }
    case 12: sym_assert(all4(flip(&free_rel), a, b, how) == ba, m); sym_assert(all4(flip(free_rel), a, b, how) == ba, m); sym_assert(all4(not_fn(free_rel), a, b, how) == !ab, m); sym_assert(all4(make_projection_compare(free_rel, free_map), a, b, how) == pab, m); break;
    case 13: sym_assert(all4(u::as_comparison(r), a, b, how) == ab, m); sym_assert(all4(u::as_comparison(u::as_comparison(r)), a, b, how) == ab, m); sym_assert(all4(u::as_comparison(&W::lt), x, y, how) == ab, m); break;
    case 14: sym_assert(all4p(u::as_projection(p), a, how) == map_[a], m); sym_assert(all4p(u::as_projection(u::as_projection(p)), a, how) == map_[a], m); sym_assert(all4p(u::as_projection(&W::a), x, how) == a && all4p(u::as_projection(&W::get), x, how) == b, m); break;
    case 15: sym_assert(all4p(u::as_projection(p) | p2, a, how) == map2_[map_[a]], m); sym_assert(all4p(p | u::as_projection(p2), a, how) == map2_[map_[a]], m); sym_assert(all4p(u::as_projection(p) | p2 | p, a, how) == map_[map2_[map_[a]]], m); sym_assert(all4p(u::as_projection(p) | (u::as_projection(p2) | p2), a, how) == map2_[map2_[map_[a]]], m); break;
    case 16: sym_assert(all4p(&W::b | u::as_projection(p), x, how) == map_[b], m); sym_assert(all4p(u::as_projection(&W::a) | p, x, how) == map_[a], m); sym_assert(all4p(u::as_projection(&W::get) | &free_map | p2, x, how) == map2_[map_[b]], m); break;
    case 17: sym_assert(all4p(u::identity{} | u::as_projection(p), a, how) == map_[a], m); sym_assert(all4p(u::as_projection(p) | u::identity{}, a, how) == map_[a], m); sym_assert(all4p(u::identity{} | u::identity{}, a, how) == a, m); { int v = a; const int cv = a; u::identity id; sym_assert(&id(v) == &v && &id(cv) == &cv, "identity does not return its argument"); sym_assert(same_t<decltype(id(v)), int&>::value && same_t<decltype(id(cv)), const int&>::value && same_t<decltype(id(3)), int&&>::value, "identity changes the value category"); } break;
    case 18: { u::indirect i; const u::indirect ci; W* px = &x; int* pa = &a; sym_assert(&i(pa) == &a && &ci(pa) == &a && &i(px) == &x, "indirect does not give the element pointed at"); sym_assert(all4p(u::indirect{} | p, pa, how) == map_[a], m); sym_assert(all4p(u::indirect{} | &W::b, px, how) == b, m); std::vector<W> v(1); v[0] = x; sym_assert((u::indirect{} | &W::a)(v.begin()) == a, m); break; }
    case 19: sym_assert(u::as_function(&W::a)(x) == a && u::as_function(&W::get)(x) == b && u::as_function(&W::lt)(x, y) == ab, m); { auto f = u::as_function(p); sym_assert(f(a) == map_[a], m); sym_assert(&u::as_function(p) == &p, "as_function copies a callable lvalue"); u::as_function(&W::a)(x) = 7; sym_assert(x.a == 7, "as_function of a data member does not give the member itself"); } break;
    case 20: { u::function_constant<&W::a> f; sym_assert(f(x) == a, m); u::function_constant<&W::get> g; sym_assert(g(x) == b, m); u::function_constant<&free_rel> h; sym_assert(h(a, b) == ab, m); sym_assert(all4(flip(h), a, b, how) == ba && all4(not_fn(h), a, b, how) == !ab, m); u::function_constant<&free_map> k; sym_assert(all4p(u::as_projection(k) | p2, a, how) == map2_[map_[a]], m); sym_assert(h.value == &free_rel && (bool(*)(int, int))h == &free_rel, m); break; }
    case 21: sym_assert(flip(r).base()(a, b) == ab && not_fn(r).base()(a, b) == ab, m); { auto c = make_projection_compare(r, p); sym_assert(c.comparison()(a, b) == ab && c.projection()(a) == map_[a], m); flip_t<Rel> d; not_fn_t<Rel> e; sym_assert(d(a, b) == ba && e(a, b) == !ab, m); auto q = u::as_projection(p); auto q2 = std::move(q); sym_assert(q2(a) == map_[a], m); } break;
    default: { u::half h; int i; unsigned un; long l; short s; sym_bytes(&i, 4); sym_bytes(&un, 4); sym_bytes(&l, 8); sym_bytes(&s, 2); sym_assert(h(i) == i / 2 && h(un) == un / 2 && h(l) == l / 2 && h(s) == s / 2 && h((size_t)l) == (size_t)l / 2, "half is not half"); sym_assert((u::half{} | u::half{})(un) == un / 2 / 2, "half twice is not a quarter"); }
    }
}
#endif
