// Elements, iterators and symbolic input families shared by the harnesses.
#pragma once
#include "vrt.h"
#include <functional>
#include <iterator>
#include <memory>
#include <type_traits>
#include <vector>
#include <list>
#include <forward_list>

namespace vrt {
    // ---- what a user operation may do: count itself, and throw at a chosen point
    struct Boom { int id; };
    struct Ops { bool armed; uint16_t at; unsigned count; bool fired; unsigned comps, projs, moves, copies; unsigned kinds; };
    extern Ops ops;
    enum { K_COMP = 1, K_PROJ = 2, K_MOVE = 4 };
    inline void tick(unsigned kind) {
        if (ops.armed && (ops.kinds & kind)) {
            unsigned i = ops.count++;
            if (!ops.fired && ops.at == i) { ops.fired = true; throw Boom{42}; }
        }
    }
#ifndef VRT_NO_NEW
    Ops ops;
#endif
    extern int g_alive;                     // tracked elements alive
#ifndef VRT_NO_NEW
    int g_alive;
#endif

    // ---- tracked, move-only element
    template<class K> struct TrackedT {
        K key; uint16_t tag; uint8_t st;
        TrackedT() : key(0), tag(0xffff), st(1) { ++g_alive; }
        TrackedT(K k, unsigned t) : key(k), tag((uint16_t)t), st(1) { ++g_alive; }
        TrackedT(TrackedT&& o) : key(o.key), tag(o.tag), st(1) {
            if (o.st != 1) sym_fail("element moved from although it was already moved-from or dead");
            tick(K_MOVE); ++ops.moves;
            o.st = 2; o.key = (K)0xAA; ++g_alive;
        }
        TrackedT& operator=(TrackedT&& o) {
            if (this == &o) sym_fail("blind self-move assignment");      // documented never to happen; self-swap is allowed, see swap below
            if (o.st != 1) sym_fail("element moved from although it was already moved-from or dead");
            if (st != 1 && st != 2) sym_fail("assignment to a dead element");
            tick(K_MOVE); ++ops.moves;
            key = o.key; tag = o.tag; st = 1; o.st = 2; o.key = (K)0xAA; return *this;
        }
        TrackedT(const TrackedT&) = delete; TrackedT& operator=(const TrackedT&) = delete;
        friend void swap(TrackedT& a, TrackedT& b) {
            if (a.st != 1 && a.st != 2 || b.st != 1 && b.st != 2) sym_fail("swap of a dead element");
            if (a.st != 1 && b.st != 1) sym_fail("swap of two moved-from elements");
            tick(K_MOVE); ops.moves += 3; std::swap(a.key, b.key); std::swap(a.tag, b.tag); std::swap(a.st, b.st);
        }
        ~TrackedT() { if (st != 1 && st != 2) sym_fail("element destroyed twice"); st = 0xDD; --g_alive; }
        void use() const { if (st != 1) sym_fail("moved-from or dead element compared or projected"); }
    };
    // copyable flavour
    template<class K> struct CopyT {
        K key; uint16_t tag; uint8_t st;
        CopyT() : key(0), tag(0xffff), st(1) { ++g_alive; }
        CopyT(K k, unsigned t) : key(k), tag((uint16_t)t), st(1) { ++g_alive; }
        CopyT(CopyT&& o) : key(o.key), tag(o.tag), st(1) { if (o.st != 1) sym_fail("element moved from although it was already moved-from or dead"); tick(K_MOVE); ++ops.moves; o.st = 2; o.key = (K)0xAA; ++g_alive; }
        CopyT(const CopyT& o) : key(o.key), tag(o.tag), st(1) { if (o.st != 1) sym_fail("copy of a moved-from or dead element"); ++ops.copies; ++g_alive; }
        CopyT& operator=(CopyT&& o) { if (this == &o) { if (st == 1) sym_fail("self-move assignment of a live element"); if (st != 2) sym_fail("assignment to a dead element"); return *this; } if (o.st != 1) sym_fail("element moved from although it was already moved-from or dead"); if (st != 1 && st != 2) sym_fail("assignment to a dead element"); tick(K_MOVE); ++ops.moves; key = o.key; tag = o.tag; st = 1; o.st = 2; o.key = (K)0xAA; return *this; }
        CopyT& operator=(const CopyT& o) { if (o.st != 1) sym_fail("copy of a moved-from or dead element"); ++ops.copies; key = o.key; tag = o.tag; st = 1; return *this; }
        ~CopyT() { if (st != 1 && st != 2) sym_fail("element destroyed twice"); st = 0xDD; --g_alive; }
        void use() const { if (st != 1) sym_fail("moved-from or dead element compared or projected"); }
    };
    // move-only element without lifecycle checks: a moved-from one holds a tag that is never a position
    template<class K> struct MovT {
        K key; uint16_t tag;
        MovT() : key(0), tag(0xffff) {} MovT(K k, unsigned t) : key(k), tag((uint16_t)t) {}
        MovT(MovT&& o) : key(o.key), tag(o.tag) { if (this != &o) { o.tag = 0xeeee; o.key = K(); } }
        MovT& operator=(MovT&& o) { if (this != &o) { key = o.key; tag = o.tag; o.tag = 0xeeee; o.key = K(); } return *this; }
        MovT(const MovT&) = delete; MovT& operator=(const MovT&) = delete; ~MovT() {}
        void use() const {}
    };
    using Mov = MovT<uint32_t>;
    using Tracked = TrackedT<uint32_t>;
    using Copied = CopyT<uint32_t>;
    struct Plain { uint32_t key; uint16_t tag; uint8_t st; Plain() = default; Plain(uint32_t k, unsigned t) : key(k), tag((uint16_t)t), st(1) {} void use() const {} };

    struct KeyLess { template<class A, class B> bool operator()(const A& a, const B& b) const { a.use(); b.use(); ++ops.comps; tick(K_COMP); return a.key < b.key; } };
    struct KeyGreater { template<class A, class B> bool operator()(const A& a, const B& b) const { a.use(); b.use(); ++ops.comps; tick(K_COMP); return a.key > b.key; } };
    struct KeyProj { template<class A> uint32_t operator()(const A& a) const { a.use(); ++ops.projs; tick(K_PROJ); return a.key; } };
    struct IntLess { bool operator()(uint32_t a, uint32_t b) const { ++ops.comps; tick(K_COMP); return a < b; } };

    // ---- iterators of a given category over an array
    template<class T, class Cat> struct It {
        using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
        T* p = nullptr;
        It() = default; explicit It(T* q) : p(q) {}
        T& operator*() const { return *p; } T* operator->() const { return p; }
        It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C>::value>> It& operator--() { --p; return *this; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C>::value>> It operator--(int) { It r = *this; --p; return r; }
        friend bool operator==(const It& a, const It& b) { return a.p == b.p; } friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> It& operator+=(difference_type d) { p += d; return *this; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> It& operator-=(difference_type d) { p -= d; return *this; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> T& operator[](difference_type d) const { return p[d]; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend It operator+(It a, difference_type d) { a.p += d; return a; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend It operator+(difference_type d, It a) { a.p += d; return a; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend It operator-(It a, difference_type d) { a.p -= d; return a; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend difference_type operator-(const It& a, const It& b) { return a.p - b.p; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend bool operator<(const It& a, const It& b) { return a.p < b.p; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend bool operator>(const It& a, const It& b) { return a.p > b.p; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend bool operator<=(const It& a, const It& b) { return a.p <= b.p; }
        template<class C = Cat, class = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>> friend bool operator>=(const It& a, const It& b) { return a.p >= b.p; }
    };
    template<class T> using Fwd = It<T, std::forward_iterator_tag>;
    template<class T> using Bid = It<T, std::bidirectional_iterator_tag>;
    template<class T> using Ra = It<T, std::random_access_iterator_tag>;

    // ---- symbolic inputs -------------------------------------------------------------------------------
    // fam 0: every key is a free byte (b < bound if p>0)
    // fam 1: key = level[shape(i)] << 16 | pattern(i), `m` free level bytes
    // fam 2: concrete pattern with `m` free 16-bit keys at spread positions
    // runs of very different lengths (many of length 1 to 3); which run holds position i
    struct RunAt { int start, len; unsigned idx; };
    inline RunAt run_at(int i, int n) {
        Rng q(n * 31u + 7); int at = 0; unsigned idx = 0;
        for (;; ++idx) { int len = q.below(3) == 0 ? 1 + (int)q.below(3) : 1 + n / 12 + (int)q.below(n / 5 + 1); if (i < at + len) return {at, len, idx}; at += len; }
    }
    inline unsigned shape_of(int shape, int i, int n, int m, Rng& r) {
        int w = 1; while (w * w < n) ++w;
        switch (shape) {
        case 0: return (unsigned)((long)i * m / n);                                   // m blocks
        case 1: return (unsigned)(i % m);                                             // interleaved
        case 2: { long k = (long)i * (2 * m - 1) / n; return (unsigned)(k < m ? k : 2 * m - 2 - k); }   // organ pipe of blocks
        case 3: return r.below(m);                                                    // scattered
        case 4: return (unsigned)((i / w) % m);                                       // repeated blocks of sqrt(n)
        case 5: return i % 13 == 7 ? 1 + r.below(m - 1) : 0;                          // rare exceptions
        case 6: { int c = i % (2 * m); return (unsigned)(c < m ? c : 2 * m - 1 - c); } // zigzag
        case 7: return i < n * 3 / 4 ? (unsigned)((long)i * m / n) : r.below(m);      // blocks with a scattered tail
        case 8: return (unsigned)(i < n / 2 ? (long)i * 2 * m / n : (long)(i - n / 2) * 2 * m / (n - n / 2 + 1)); // two half passes
        case 9: return i < n / 8 ? r.below(m) : (unsigned)((long)i * m / n);          // scattered head
        case 10: return i == n / 2 ? 1u % m : i == n - 1 ? 2u % m : i == 0 ? 3u % m : 0u;   // extremes at pivot positions
        case 11: return (unsigned)((i & (i >> 1) & 1) ? (i % m) : (m - 1));
        case 13: { int h = n / 2, j = i < h ? i : i - h, t = i < h ? 45 : 90; return j < h - t ? 0u : 1u % m + r.below(m > 1 ? m - 1 : 1); }   // sorted halves, new elements at the end of each
        case 12: { unsigned x = run_at(i, n).idx; return (x * 7 + x / 3) % (unsigned)m; }
        default: return r.below(m);
        }
    }
    inline unsigned pat_of(int pat, int i, int n, Rng& r, const std::vector<uint16_t>& perm) {
        int w = 1; while (w * w < n) ++w;
        switch (pat) {
        case 0: return 0;
        case 1: return (unsigned)i;
        case 2: return (unsigned)(n - i);
        case 3: return perm[i];
        case 4: return (unsigned)(i % w);
        case 5: return (unsigned)(i < n / 2 ? 2 * i : 2 * (n - i) - 1);
        case 6: { int k = n / 2; return (unsigned)(i < k ? (i % 2 == 0 ? i + 1 : k + i + (k % 2 ? 1 : 0)) : (i - k + 1) * 2); }   // median-of-3 killer
        case 7: return perm[i] % 16u;
        case 8: return (unsigned)((w - i % w) * w + i / w);
        case 9: return i % 17 == 5 ? perm[i] : (unsigned)i;                           // nearly sorted
        case 10: return (unsigned)(i % 2 ? n - i : i);
        case 11: return i % 17 == 5 ? perm[i] : (unsigned)(n - i);                    // nearly reversed
        case 12: return (unsigned)(n - i) / 3;                                        // descending with ties
        case 13: return (unsigned)i / 3;                                              // ascending with ties
        case 14: return (unsigned)(i % 40 < 20 ? i % 40 : 40 - i % 40) * 8 + (i / 40) % 8; // ascending and descending runs
        case 15: return (unsigned)(i < n - 4 ? i : perm[i]);                          // sorted with a few new elements at the end
        case 16: { int g = (int)((long)i * 8 / n); return g == 2 || g == 5 || g == 7 ? perm[i] : g == 3 || g == 4 ? (unsigned)(n - i) : (unsigned)i; }   // long runs and unsorted stretches
        case 17: return (unsigned)((w - i % w) / 2 + (i / w) % 3);                     // descending sawtooth with ties
        case 18: { RunAt a = run_at(i, n); int k = i - a.start; return (unsigned)(a.idx % 4 == 1 ? a.len - k : a.idx % 4 == 2 ? k / 2 : a.idx % 4 == 3 ? (a.len - k) / 2 : k); }
        case 19: { int h = n / 2, j = i < h ? i : i - h, t = i < h ? 45 : 90; return j < h - t ? (unsigned)j / 2 : perm[i] / 2u; }           // sorted halves, new elements at the end of each
        case 20: { int h = n / 2, j = i < h ? i : i - h, t = i < h ? 90 : 45; return j < h - t ? (unsigned)(h - j) * 2 : perm[i] / 2u; }     // descending halves, new elements at the end of each
        case 21: { int h = n / 2, j = i < h ? i : i - h, t = i < h ? 20 : 120; return j < h - t ? (unsigned)j : (unsigned)((perm[i] % 4) * h / 4); }   // the same with many ties
        default: return r.below((unsigned)n);
        }
    }
    inline void fill_keys(std::vector<uint32_t>& k, int n, int fam, int m, int shape, int pat, unsigned seed = 1) {
        k.resize(n); if (n == 0) return;
        if (fam == 0) { for (int i = 0; i < n; ++i) { uint8_t b = u8(); if (m) sym_assume(b < m); k[i] = b; } return; }
        Rng r(seed + shape * 131 + pat * 7919 + n);
        std::vector<uint16_t> perm(n); for (int i = 0; i < n; ++i) perm[i] = (uint16_t)i;
        for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        if (fam == 1) {
            uint8_t lev[16]; sym_bytes(lev, m);
            for (int i = 0; i < n; ++i) { unsigned s = m > 1 ? shape_of(shape, i, n, m, r) % (unsigned)m : 0; unsigned p = pat_of(pat, i, n, r, perm); k[i] = ((uint32_t)lev[s] << 16) | p; }
        } else {
            for (int i = 0; i < n; ++i) k[i] = 4 * pat_of(pat, i, n, r, perm) + 2;
            for (int j = 0; j < m; ++j) {
                int pos = shape == 0 ? (int)((long)n * (2 * j + 1) / (2 * m)) : shape == 1 ? n - 1 - j : shape == 2 ? j : (int)r.below(n);
                k[pos] = u16();
            }
        }
    }
    // McIlroy's adversary: the order is decided while the sort runs; the first `bits` undecided comparisons are free choices
    struct Adversary {
        std::vector<uint32_t> val; uint32_t solid = 0; int cand = -1; int bits = 0; unsigned ncmp = 0;
        static constexpr uint32_t gas = 0xffffff;
        void init(int n, int b) { val.assign(n, (uint32_t)gas); bits = b; }
        bool less(unsigned x, unsigned y) {
            ++ncmp; if (x == y) return false;
            if (val[x] == gas && val[y] == gas) {
                bool fx = (int)x == cand; if (bits > 0) { --bits; fx = sym_fork(u8() & 1); }
                val[fx ? x : y] = solid++;
            }
            if (val[x] == gas) cand = (int)x; else if (val[y] == gas) cand = (int)y;
            return val[x] < val[y];
        }
    };
    // sortedness of plain arrays of keys as one condition
    template<class T, class F> inline int sorted_by(const T* p, int n, F less) { int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= !less(p[i + 1], p[i]); return ok; }
}
