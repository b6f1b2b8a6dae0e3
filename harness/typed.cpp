// Sorters for specific types: -DSO=<sorter> -DHDR=<header> and -DTY=<type> or -DSTR
#include "common.h"
#include <algorithm>
#include HDR
#include <cmath>
#include <cstring>
#include <string>
#include <string_view>
#include <tuple>
#include <limits>
using namespace vrt;
namespace {
    // ---- a value of the type from 64 bits (all of its values for types of up to 64 bits)
    template<class T> struct Mk { static T of(uint64_t b) { return (T)b; } static constexpr int bits = sizeof(T) * 8; };
    template<> struct Mk<bool> { static bool of(uint64_t b) { return b & 1; } static constexpr int bits = 1; };
    template<> struct Mk<float> { static float of(uint64_t b) { uint32_t x = (uint32_t)b; if ((x & 0x7f800000u) == 0x7f800000u) x &= 0xff800000u; float f; std::memcpy(&f, &x, 4); return f;   /* infinities instead of NaNs */ } static constexpr int bits = 32; };
    template<> struct Mk<double> { static double of(uint64_t b) { if ((b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) b &= 0xfff0000000000000ull; double f; std::memcpy(&f, &b, 8); return f; } static constexpr int bits = 64; };
    template<> struct Mk<__int128> { static __int128 of(uint64_t b) { return (__int128)(((unsigned __int128)b << 64) | (b >> 3)); } static constexpr int bits = 64; };
    template<> struct Mk<unsigned __int128> { static unsigned __int128 of(uint64_t b) { return ((unsigned __int128)b << 64) | (b >> 3); } static constexpr int bits = 64; };
    template<class T> struct Mk<T*> { static T* of(uint64_t b) { return (T*)(uintptr_t)b; } static constexpr int bits = 64; };
    template<class A, class B> struct Mk<std::pair<A, B>> { static constexpr int bits = Mk<A>::bits + Mk<B>::bits > 64 ? 64 : Mk<A>::bits + Mk<B>::bits; static std::pair<A, B> of(uint64_t b) { constexpr int s = bits == 64 && Mk<B>::bits > 32 ? 32 : Mk<B>::bits; return {Mk<A>::of(b >> s), Mk<B>::of(Mk<B>::bits > 32 ? b << 32 : b)}; } };
    template<class A, class B, class C> struct Mk<std::tuple<A, B, C>> { static constexpr int bits = Mk<A>::bits + Mk<B>::bits + Mk<C>::bits; static std::tuple<A, B, C> of(uint64_t b) { return std::make_tuple(Mk<A>::of(b >> (Mk<B>::bits + Mk<C>::bits)), Mk<B>::of(b >> Mk<C>::bits), Mk<C>::of(b)); } };
    template<class A> struct Mk<std::vector<A>> { static constexpr int bits = 4 * Mk<A>::bits > 60 ? 62 : 4 * Mk<A>::bits + 2; static std::vector<A> of(uint64_t b) { std::vector<A> v; int n = (int)sym_concretize((b >> (bits - 2)) & 3) + 1, w = (bits - 2) / 4; for (int i = 0; i < n; ++i) v.push_back(Mk<A>::of((b >> (w * (3 - i))) << (Mk<A>::bits - w))); return v; } };
    // ---- bits of element i for a pattern
    uint64_t pat_bits(int pat, int i, int n, int bits, Rng& r) {
        uint64_t hi = 1ull << (bits - 1), all = bits == 64 ? ~0ull : (1ull << bits) - 1; uint64_t x = ((uint64_t)r() << 32) ^ r() ^ ((uint64_t)r() << 13);
        switch (pat) {
        case 0: return x & all;
        case 1: return (uint64_t)(int64_t)((int)(x % 41) - 20) & all;                       // around zero
        case 2: { const uint64_t e[] = {hi, hi - 1, 0, all, 1, hi + 1, hi - 2, all - 1}; return e[x % 8] & all; }   // extremes
        case 3: return ((x & 0xff) << (bits > 8 ? bits - 8 : 0)) & all;                     // highest byte only
        case 4: return x & 0xff & all;                                                      // lowest byte only
        case 5: return (uint64_t)(n - i) & all;                                             // descending
        case 6: return (x & 1 ? hi : 3) & all;                                              // two values
        case 7: return (i == n / 3 ? hi - 1 : i == n / 2 ? hi : 7) & all;                   // outliers
        case 8: return ((uint64_t)i * 0x0101010101010101ull) & all;
        case 9: return (hi | (x % 300)) & all;                                              // negative side
        case 10: return (i % 2 ? hi : 0) & all;                                             // the two zeros / minimum and 0
        case 11: return (x >> (x % 64)) & all;                                              // all magnitudes
        default: return (uint64_t)i & all;                                                  // ascending
        }
    }
    uint64_t mask_of(int mask, int bits) {
        if (bits == 1) return 1;
        switch (mask) { case 0: return ~0ull; case 1: return bits > 8 ? 0x7full << (bits - 7) : 0x7f; case 2: return 0x1full; case 3: return (1ull << (bits - 1)) | (bits > 8 ? 0x180ull : 0) | 1; case 4: return bits > 16 ? (7ull << (bits / 2)) : 7; case 5: return (1ull << (bits - 1)) | (1ull << (bits - 2)) | (bits > 16 ? 1ull << (bits - 9) : 4); default: return 0; }
    }
    // bits of all elements: pattern with m keys free under a mask, at spread positions
    std::vector<uint64_t> input(int n, int pat, int m, int mask, int bits) {
        std::vector<uint64_t> b(n); Rng r(n * 31 + pat); for (int i = 0; i < n; ++i) b[i] = pat_bits(pat, i, n, bits, r);
        uint64_t mk = mask_of(mask, bits);
        for (int j = 0; j < m; ++j) { int p = (int)((long)n * (2 * j + 1) / (2 * m)); uint64_t x; if (bits <= 8) x = u8(); else if (bits <= 16) x = u16(); else if (bits <= 32) x = u32(); else x = u64(); b[p] = (x & mk) | (b[p] & ~mk); }
        return b;
    }
    template<class T> struct E { T key; uint16_t tag; };
    template<class T> bool bits_equal(const T& a, const T& b) { return a == b; }
    bool bits_equal(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }
    bool bits_equal(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
}

#if __cplusplus >= 202002L
#include <functional>
using G = std::ranges::greater;
#else
using G = std::greater<>;
#endif

#ifdef TY
using T = TY;
static const auto& lim = std::numeric_limits<T>();
template<class S, class V> auto plain(S& s, V& v, int) -> decltype(s(v.begin(), v.end()), void()) { s(v.begin(), v.end()); }
static void run_plain(const std::vector<T>& in, int how) {
    int n = (int)in.size(); T* a = (T*)sym_malloc(sizeof(T) * (n + 1)); for (int i = 0; i < n; ++i) new (a + i) T(in[i]); T* cp = (T*)sym_malloc(sizeof(T) * (n + 1)); for (int i = 0; i < n; ++i) new (cp + i) T(in[i]);
    SO s{}; sym_eager(1);
    if (how == 0) s(a, a + n);
    else if (how == 1) s(Ra<T>(a), Ra<T>(a + n));
#ifdef DESC
    else if (how == 2) s(a, a + n, G{});
    else if (how == 3) s(Fwd<T>(a), Fwd<T>(a + n));
    else if (how == 4) s(Bid<T>(a), Bid<T>(a + n), G{});
#endif
    sym_eager(0); bool desc = how == 2 || how == 4;
    int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= desc ? !(a[i] < a[i + 1]) : !(a[i + 1] < a[i]); sym_assert(ok, "the range is not sorted");
#ifdef FLAT
    for (size_t i = 0; i < sizeof(T) * (n < 40 ? n : 40); ++i) sym_observe(((unsigned char*)a)[i]);
    if (n) sym_assert(sym_perm(a, cp, n, sizeof(T)), "the range is not a permutation of its input");
#endif
    for (int i = 0; i < n; ++i) { a[i].~T(); cp[i].~T(); } sym_free(a); sym_free(cp);
}
#ifndef NOPROJ
static void run_proj(const std::vector<T>& in) {
    int n = (int)in.size(); std::vector<E<T>> v; for (int i = 0; i < n; ++i) v.push_back(E<T>{in[i], (uint16_t)i});
    SO s{}; sym_eager(1); s(v.begin(), v.end(), &E<T>::key); sym_eager(0);
    std::vector<char> seen(n, 0); int ok = 1, same = 1;
    for (int i = 0; i < n; ++i) { unsigned t = v[i].tag; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of its input"); same &= bits_equal(v[i].key, in[t]); if (i + 1 < n) ok &= !(v[i + 1].key < v[i].key); }
    sym_assert(same, "an element lost its key"); sym_assert(ok, "the range is not sorted");
}
#else
static void run_proj(const std::vector<T>&) {}
#endif
extern "C" void e_pat(int how, int n, int pat, int m, int mask) {
    std::vector<uint64_t> b = input(n, pat, m, mask, Mk<T>::bits); std::vector<T> in; sym_eager(1); for (uint64_t x : b) in.push_back(Mk<T>::of(x)); sym_eager(0);
    if (how == 9) run_proj(in); else run_plain(in, how);
}
#ifdef COUNTING
// n keys base + 0..2^lowbits-1
extern "C" void e_cnt(int how, int n, int which, int lowbits) {
    T base = which == 0 ? lim.min() : which == 1 ? (T)(lim.max() - (T)((1 << lowbits) - 1)) : which == 2 ? (T)(lim.is_signed ? 0 - (T)(1 << lowbits) / 2 : lim.max() / 3) : which == 3 ? (T)0 : (T)(lim.max() / 2);
    std::vector<T> in; for (int i = 0; i < n; ++i) { uint8_t o = u8(); sym_assume(o < (1 << lowbits)); in.push_back((T)(base + (T)o)); }
    run_plain(in, how);
}
// keys near both ends of the type: there are too many values to count, except for the narrow types
extern "C" void e_far(int how, int n) {
    std::vector<T> in; for (int i = 0; i < n; ++i) { uint8_t o = u8(); sym_assume(o < 4); o = (uint8_t)sym_concretize(o); in.push_back((T)((o & 2 ? lim.max() : lim.min()) + (o == 3 ? -1 : o == 1 ? 1 : 0))); }
    g_alloc.limit = 1u << 20;
    try { run_plain(in, how); } catch (const std::bad_alloc&) { sym_assert(sizeof(T) > 2, "no memory for counters of a narrow type"); }
    g_alloc.limit = 0;
}
#endif
#endif

#ifdef STR
static std::string word(int pat, int i, int n, Rng& r) {
    static const char al[] = {'a', 'b', (char)0xff, 0, 'a', (char)0x80, 'c', 0x7f}; std::string s; uint32_t x = r();
    auto tail = [&](int k, int from) { for (int j = 0; j < k; ++j) s.push_back(al[(r() + from) % 8]); };
    switch (pat) {
    case 0: tail(x % 5, 0); break;                                                    // short words
    case 1: s.assign(20, 'p'); tail(x % 4, 1); break;                                 // long common prefix
    case 2: s = "same"; break;
    case 3: s.assign(i % 19, 'a'); break;                                             // prefixes of each other
    case 4: s.push_back((char)(x & 0xff)); s.push_back((char)((x >> 8) & 0xff)); break;
    case 5: { int v = n - i; s.push_back((char)('0' + v / 100)); s.push_back((char)('0' + v / 10 % 10)); s.push_back((char)('0' + v % 10)); break; }
    case 6: if (x % 3) { s.assign(70, 'q'); tail(1 + x % 3, 2); } break;               // empties and very long prefixes
    case 7: s = x % 4 == 0 ? "" : x % 4 == 1 ? std::string(1, 0) : x % 4 == 2 ? std::string(2, 0) : std::string(1, (char)0xff); break;
    default: s.assign(3, (char)('a' + i % 26)); tail(x % 3, 0); break;
    }
    return s;
}
// equal strings are the same value, so the only correct result is the one of the reference sort
template<class V> static int expect(const V& v, std::vector<std::string> w, bool desc) {
    std::sort(w.begin(), w.end()); if (desc) std::reverse(w.begin(), w.end());
    if (v.size() != w.size()) return 0; for (size_t i = 0; i < w.size(); ++i) if (v[i] != w[i]) return 0; return 1;
}
// m words get one free (masked) character, or a free length
extern "C" void e_str(int how, int n, int pat, int m, int mask) {
    std::vector<std::string> w; Rng r(n + pat * 77); for (int i = 0; i < n; ++i) w.push_back(word(pat, i, n, r));
    for (int j = 0; j < m; ++j) { int p = (int)((long)n * (2 * j + 1) / (2 * m)); uint8_t c = u8(); uint8_t mk = mask == 0 ? 0xff : mask == 1 ? 0x8f : mask == 3 ? 0x82 : 0x07; c &= mk; if (mask == 2) { uint8_t len = u8(); sym_assume(len <= w[p].size()); w[p].resize(sym_concretize(len)); } w[p].push_back((char)c); }
    SO s{}; int ok = 1;
    if (how < 2) {
        std::vector<std::string> v = w; sym_eager(1);
        if (how == 0) s(v);
#ifdef DESC
        else s(v, G{});
#endif
        ok = expect(v, w, how == 1); sym_eager(0); for (int i = 0; i < n && i < 60; ++i) sym_observe(v[i].size());
    } else {
        struct W { std::string key; uint16_t tag; }; std::vector<W> v; for (int i = 0; i < n; ++i) v.push_back(W{w[i], (uint16_t)i}); sym_eager(1);
        if (how == 2) s(v, &W::key);
        else {
#ifdef VIEW
            std::vector<std::string_view> q(w.begin(), w.end());
            if (how == 3) s(q);
#ifdef DESC
            else s(q, G{});
#endif
            ok = expect(q, w, how == 4); sym_eager(0); sym_assert(ok, "the range is not the sorted permutation of its input"); for (int i = 0; i < n && i < 60; ++i) sym_observe(q[i].size());
            return;
#endif
        }
        std::vector<char> seen(n, 0); int same = 1;
        for (int i = 0; i < n; ++i) { unsigned t = v[i].tag; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of its input"); if (v[i].key != w[t]) same = 0; if (i + 1 < n && v[i + 1].key < v[i].key) ok = 0; }
        sym_eager(0); sym_assert(same, "an element lost its key");
    }
    sym_assert(ok, "the range is not sorted");
}
extern "C" void e_strfree(int how, int n, int len) {        // every character and length free
    std::vector<std::string> w; for (int i = 0; i < n; ++i) { uint8_t l = u8(); sym_assume(l <= len); int k = (int)sym_concretize(l); std::string s; for (int j = 0; j < k; ++j) s.push_back((char)u8()); w.push_back(s); }
    SO s{}; std::vector<std::string> v = w; sym_eager(1); if (how == 0) s(v);
#ifdef DESC
    else s(v, G{});
#endif
    int ok = expect(v, w, how); sym_eager(0); sym_assert(ok, "the range is not the sorted permutation of its input");
    for (int i = 0; i < n; ++i) sym_observe(v[i].size());
}
#endif
