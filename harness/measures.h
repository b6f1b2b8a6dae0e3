// The measures of presortedness written from their definitions, on an array of keys: quadratic, no sorting, nothing from the library.
#pragma once
#include <vector>
#include <cstdint>
namespace measures {
    using V = std::vector<uint32_t>; typedef long L;
    inline L inv(const V& x) { L r = 0; for (size_t i = 0; i < x.size(); ++i) for (size_t j = i + 1; j < x.size(); ++j) r += x[j] < x[i]; return r; }
    inline L dis(const V& x) { L r = 0, n = (L)x.size(); for (L d = n - 1; d > 0; --d) for (L i = 0; i + d < n; ++i) if (x[i + d] < x[i]) return d; return r; }
    inline L runs(const V& x) { L r = 0; for (size_t i = 1; i < x.size(); ++i) r += x[i] < x[i - 1]; return r; }
    // fewest monotone (non-decreasing or non-increasing) pieces of consecutive elements, minus one
    inline L mono(const V& x) {
        L n = (L)x.size(); if (n < 2) return 0; std::vector<L> best(n + 1, n); best[0] = 0;
        for (L e = 1; e <= n; ++e) { bool up = true, down = true; for (L s = e - 1; s >= 0; --s) { if (s + 1 < e) { if (x[s + 1] < x[s]) up = false; if (x[s] < x[s + 1]) down = false; } if (!up && !down) break; if (best[s] + 1 < best[e]) best[e] = best[s] + 1; } }
        return best[n] - 1;
    }
    // pairs of adjacent elements strictly enclosing an element
    inline L osc(const V& x) { L r = 0; for (size_t i = 0; i + 1 < x.size(); ++i) { uint32_t lo = x[i], hi = x[i + 1]; if (hi < lo) { uint32_t t = lo; lo = hi; hi = t; } for (uint32_t e : x) r += (lo < e) & (e < hi); } return r; }
    inline L rem(const V& x) { L n = (L)x.size(), b = 0; std::vector<L> l(n, 1); for (L i = 0; i < n; ++i) { for (L j = 0; j < i; ++j) if (!(x[i] < x[j]) && l[j] + 1 > l[i]) l[i] = l[j] + 1; if (l[i] > b) b = l[i]; } return n - b; }
    inline L sus(const V& x) { L n = (L)x.size(), b = 0; std::vector<L> l(n, 1); for (L i = 0; i < n; ++i) { for (L j = 0; j < i; ++j) if (x[i] < x[j] && l[j] + 1 > l[i]) l[i] = l[j] + 1; if (l[i] > b) b = l[i]; } return n ? b - 1 : 0; }
    // positions (smallest and largest) the value of element i occupies in the sorted sequence
    inline void place(const V& x, size_t i, L& lo, L& hi) { L a = 0, e = 0; for (uint32_t k : x) { a += k < x[i]; e += k == x[i]; } lo = a; hi = a + e - 1; }
    inline L ham(const V& x) { L r = 0, lo, hi; for (size_t i = 0; i < x.size(); ++i) { place(x, i, lo, hi); r += (L)i < lo || (L)i > hi; } return r; }
    inline L max(const V& x) { L r = 0, lo, hi; for (size_t i = 0; i < x.size(); ++i) { place(x, i, lo, hi); L d = (L)i < lo ? lo - (L)i : (L)i > hi ? (L)i - hi : 0; if (d > r) r = d; } return r; }
    // Skiena's encroaching lists: an element extends the first list that takes it at its tail, else at its head, else starts a new one
    inline L enc(const V& x) {
        std::vector<uint32_t> h, t;
        for (uint32_t k : x) { size_t c = h.size(), i; bool done = false;
            if (c && !(k < t[c - 1])) { for (i = 0; i < c && !done; ++i) if (!(k < t[i])) { t[i] = k; done = true; } }
            else if (c && !(h[c - 1] < k)) { for (i = 0; i < c && !done; ++i) if (!(h[i] < k)) { h[i] = k; done = true; } }
            if (!done) { h.push_back(k); t.push_back(k); } }
        return x.empty() ? 0 : (L)h.size() - 1;
    }
    // stable sorted position of each element
    inline std::vector<L> rank(const V& x) { std::vector<L> r(x.size(), 0); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) r[i] += j < i ? x[j] <= x[i] : x[j] < x[i]; return r; }
    // elements not followed, in X, by what follows them in the sorted sequence (values; equivalent elements keep their order)
    inline L block(const V& x) {
        L n = (L)x.size(), r = 0; if (n < 2) return 0; std::vector<L> rk = rank(x); std::vector<L> at(n); for (L i = 0; i < n; ++i) at[rk[i]] = i;
        for (L s = 0; s + 1 < n; ++s) { L i = at[s]; if (i + 1 == n) r += x[i] != x[at[n - 1]]; else r += x[i + 1] != x[at[s + 1]]; }
        return r;
    }
    inline L cycles(const V& x) { std::vector<L> rk = rank(x); std::vector<char> seen(x.size(), 0); L c = 0; for (size_t i = 0; i < x.size(); ++i) if (!seen[i]) { ++c; for (size_t j = i; !seen[j]; j = rk[j]) seen[j] = 1; } return c; }
    inline bool distinct(const V& x) { for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < i; ++j) if (x[i] == x[j]) return false; return true; }
    // fewest exchanges that sort x: iterative deepening over all exchanges that put a misplaced element where its value belongs
    // (an optimal sequence made of such exchanges always exists)
    inline bool exc_in(V& x, const V& s, L d) {
        size_t i = 0; while (i < x.size() && x[i] == s[i]) ++i;
        if (i == x.size()) return true;
        L bad = 0; for (size_t j = i; j < x.size(); ++j) bad += x[j] != s[j];
        if (bad > 2 * d) return false;
        for (size_t j = i + 1; j < x.size(); ++j) if (x[j] == s[i] && x[j] != s[j]) { std::swap(x[i], x[j]); bool ok = exc_in(x, s, d - 1); std::swap(x[i], x[j]); if (ok) return true; }
        return false;
    }
    inline L exc(const V& x) { V s(x.size()); std::vector<L> rk = rank(x); for (size_t i = 0; i < x.size(); ++i) s[rk[i]] = x[i]; V y = x; for (L d = 0;; ++d) if (exc_in(y, s, d)) return d; }
}
