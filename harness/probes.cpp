// Measures of presortedness: -DP=<probe> -DHDR=<header>
#include "common.h"
#include "measures.h"
#include HDR
#include <functional>
using namespace vrt;
using measures::V; using measures::L;
#define STR_(x) #x
#define STR(x) STR_(x)
struct Seq {            // the elements, move-only so that any move shows; their position is their tag
    int n; Mov* v; const V& k;
    Seq(const V& keys, bool neg = false) : n((int)keys.size()), k(keys) { v = (Mov*)sym_malloc(sizeof(Mov) * n); for (int i = 0; i < n; ++i) new (v + i) Mov(neg ? ~keys[i] : keys[i], i); }
    ~Seq() { for (int i = 0; i < n; ++i) v[i].~Mov(); sym_free(v); }
    void same(bool neg = false) { int ok = 1; for (int i = 0; i < n; ++i) { if (v[i].tag != i) sym_fail("the probe moved an element"); ok &= v[i].key == (neg ? ~k[i] : k[i]); } sym_assert(ok, "the probe changed an element"); }
};
static const auto& probe_ = (cppsort::probe::P);
struct Box { uint32_t v; bool less(const Box& o) const { return v < o.v; } };
// the value through one of the ways of calling the probe
static L call(int kind, const V& k) {
    L r = 0; int n = (int)k.size();
    switch (kind) {
    case 0: { Seq s(k); sym_eager(1); r = probe_(s.v, s.v + n, KeyLess{}); sym_eager(0); s.same(); break; }
    case 1: { Seq s(k); sym_eager(1); r = probe_(Bid<Mov>(s.v), Bid<Mov>(s.v + n), std::less<>{}, &Mov::key); sym_eager(0); s.same(); break; }
    case 2: { Seq s(k); sym_eager(1); r = probe_(Fwd<Mov>(s.v), Fwd<Mov>(s.v + n), KeyLess{}); sym_eager(0); s.same(); break; }
    case 3: { V w = k; sym_eager(1); r = probe_(w); sym_eager(0); int ok = 1; for (int i = 0; i < n; ++i) ok &= w[i] == k[i]; sym_assert(ok, "the probe changed an element"); break; }
    case 4: { Seq s(k, true); sym_eager(1); r = probe_(Fwd<Mov>(s.v), Fwd<Mov>(s.v + n), std::greater<>{}, &Mov::key); sym_eager(0); s.same(true); break; }
    case 5: { std::forward_list<uint32_t> w(k.begin(), k.end()); sym_eager(1); r = probe_(w, std::less<>{}, [](uint32_t x) { return (uint64_t)x * 5 + 3; }); sym_eager(0); break; }
    case 6: { const std::list<uint32_t> w(k.begin(), k.end()); sym_eager(1); r = probe_(w); sym_eager(0); break; }
    case 7: { std::vector<Box> w; for (uint32_t x : k) w.push_back(Box{x}); sym_eager(1); r = probe_(w, &Box::less); sym_eager(0); break; }
    case 8: { V w; for (uint32_t x : k) w.push_back(~x); sym_eager(1); r = probe_(w.begin(), w.end(), std::greater<>{}); sym_eager(0); break; }
    }
    sym_observe((uint64_t)r); return r;
}
static bool is(const char* s) { return __builtin_strcmp(s, STR(P)) == 0; }
static void keys(V& k, int n, int fam, int m, int shape, int pat) {
    if (fam < 3) { fill_keys(k, n, fam, m, shape, pat, 1); return; }
    // fam 3: sorted, free steps at m boundaries (a tie where the step is 0), pattern ties in between; fam 4: all free and sorted
    k.resize(n); if (fam == 4) { fill_keys(k, n, 0, 0, 0, 0); int ok = 1; for (int i = 0; i + 1 < n; ++i) ok &= k[i] <= k[i + 1]; sym_assume(ok); return; }
    uint32_t cur = 5; Rng r(n + shape * 7); V st(m + 1); for (int i = 0; i < m; ++i) { uint8_t b = u8(); st[i] = sym_fork(b & 1) ? 2 : 0; }
    for (int i = 0, j = 0; i < n; ++i) { bool cut = j < m && i == (long)n * (j + 1) / (m + 1); if (cut) cur += st[j++]; else if (i) cur += pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? i % 3 == 0 : pat == 3 ? i % 7 == 0 : r.below(4) == 0; k[i] = cur; }
}
static int differ(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return 1; if (!*a) return 0; } }
static uint32_t digits(const V& k, char* out) { V o(k); std::vector<L> rk = measures::rank(k); uint32_t c = 0; int n = (int)k.size(); for (int i = 0; i < n; ++i) { int d = 0; for (int v = 0; v < n; ++v) { bool below = k[v] < k[i]; for (int w = 0; w < v && below; ++w) if (k[w] == k[v]) below = false; d += below; } out[i] = (char)('0' + d); } out[n] = 0; return c; }

// C08: the value is the definition's
extern "C" void e_def(int kind, int n, int fam, int m, int shape, int pat) {
    V k; keys(k, n, fam, m, shape, pat); L r = call(kind, k), d; sym_eager(1);
    if (is("exc")) {
        if (n < 2) { sym_assert(r == 0, "the probe does not give the value of its definition"); return; }
        L h = measures::ham(k);
        sym_assert((r == 0) == (h == 0), "exc is 0 for an unsorted sequence or not 0 for a sorted one");
        sym_assert(r <= h, "exc counts more exchanges than there are misplaced elements");
        if (measures::distinct(k)) sym_assert(r == n - measures::cycles(k), "the probe does not give the value of its definition");
        else if (n <= 6) sym_assert(r >= measures::exc(k), "exc counts fewer exchanges than needed");
        return;
    }
#define D(f) else if (is(#f)) d = (measures::f)(k);
    if (0); D(block) D(dis) D(enc) D(ham) D(inv) D(max) D(mono) D(osc) D(rem) D(runs) D(sus) else if (is("par")) d = measures::dis(k); else { sym_fail("harness: unknown probe"); }
    sym_assert(r == d, "the probe does not give the value of its definition");
}
// exc on every order type of n elements, ties included, against the least number of exchanges
// (which: 0 all but the order types of EXC_KNOWN, i > 0 the i-th of these)
#ifndef EXC_KNOWN
#define EXC_KNOWN
#endif
extern "C" void e_exc(int n, int which) {
    V k; fill_keys(k, n, 0, 0, 0, 0); sym_eager(1); static const char* const known[] = {EXC_KNOWN nullptr};
    { char o[16]; digits(k, o); if (which) { if (differ(o, known[which - 1])) sym_assume(0); } else for (int i = 0; known[i]; ++i) if (!differ(o, known[i])) sym_assume(0); }
    L r = call(0, k); sym_eager(1); L d = measures::exc(k);
    static char msg[128]; char o[16]; digits(k, o); char* w = msg;
    auto put = [&](const char* t) { while (*t) *w++ = *t++; }; auto num = [&](L x) { if (x > 9) *w++ = (char)('0' + x / 10); *w++ = (char)('0' + x % 10); };
    put("exc gives "); num(r); put(" for the order type "); put(o); put(", "); num(d); put(" exchanges suffice"); *w = 0;
    sym_assert(r == d, msg);
}
// C09
extern "C" void e_zero(int kind, int n, int fam, int m, int shape, int pat) { V k; keys(k, n, fam, m, shape, pat); sym_assert(call(kind, k) == 0, "the probe does not give 0 for a sorted sequence"); }
extern "C" void e_max(int kind, int n, int fam, int m, int shape, int pat) {
    V k; keys(k, n, fam, m, shape, pat); L r = call(kind, k), mx = probe_.max_for_size((L)n); sym_assert(r >= 0, "the probe gives a negative value"); sym_assert(r <= mx, "the probe exceeds the maximum it publishes");
    sym_assert((L)probe_.max_for_size((unsigned)n) == mx && (L)probe_.max_for_size(n) == mx && (L)probe_.max_for_size((unsigned long long)n) == mx, "the published maximum depends on the integer type");
    sym_count(0, r == mx); sym_count(1, 1);
}
extern "C" void e_att(int n) {      // natively: is the published maximum reached by any permutation?
    V k(n); for (int i = 0; i < n; ++i) k[i] = i; L best = 0;
    auto go = [&](auto& self, int i) -> void { if (i == n) { L r = probe_(k); if (r > best) best = r; return; } for (int j = i; j < n; ++j) { std::swap(k[i], k[j]); self(self, i + 1); std::swap(k[i], k[j]); } };
    go(go, 0); sym_assert(best == probe_.max_for_size((L)n), "the published maximum is not reached");
}
// all ways of calling agree
extern "C" void e_same(int n, int fam, int m, int shape, int pat) { V k; keys(k, n, fam, m, shape, pat); L r = call(0, k); for (int i = 1; i < 9; ++i) if (call(i, k) != r) sym_fail("the probe depends on the iterator category, the container or an order-preserving relabelling"); sym_assert(r >= 0, "the probe gives a negative value"); }
// Mannila's remaining axioms, for distinct elements: a subsequence, a concatenation, a new first element
extern "C" void e_axioms(int n, int fam, int m, int shape, int pat) {
    V k; keys(k, n, fam, m, shape, pat); L r = call(0, k); sym_eager(1); if (!measures::distinct(k)) sym_assume(0);
    for (int i = 0; i < n; i += n > 20 ? n / 7 : 1) { V w = k; w.erase(w.begin() + i); sym_assert(probe_(w) <= r, "a subsequence has a larger value than the sequence"); }
    if (n) { V w(k.begin() + 1, k.end()); L q = probe_(w); sym_assert(r <= n - 1 + q, "a new first element adds more than the length of the sequence"); }
    for (int c = 1; c < n; c += n > 20 ? n / 7 : 1) { bool split = true; for (int i = 0; i < c && split; ++i) for (int j = c; j < n && split; ++j) split = k[i] < k[j]; if (split) { V a(k.begin(), k.begin() + c), b(k.begin() + c, k.end()); sym_assert(r <= probe_(a) + probe_(b), "a concatenation has a larger value than its parts"); } }
}
