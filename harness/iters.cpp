// Buffer providers, iterators with customised moves, and proxy iterators.
// -DPART=1: iter_move / iter_swap of the user;  -DPART=2: proxy references
#include "common.h"
#include HDR
#ifdef HDR2
#include HDR2
#endif
#ifdef HDR3
#include HDR3
#endif
#ifdef HDR4
#include HDR4
#endif
using namespace vrt;
#ifdef FIXED
// a fixed-size sorter for each of the sizes in FSIZES, picked by the length of the range
template<size_t... Ns> struct AnyOf {
    template<class I, class... A> void operator()(I f, I l, A... a) const {
        size_t n = l - f; int done = 0; int x[] = {(n == Ns ? (FIXED<Ns>{}(f, l, a...), done = 1) : 0)...}; (void)x; if (!done) sym_fail("harness: no sorter for this size");
    }
};
using sorter_t = AnyOf<FSIZES>;
#else
using sorter_t = SORTER;
#endif
#if CAT == 0
using cat_t = std::forward_iterator_tag;
#elif CAT == 1
using cat_t = std::bidirectional_iterator_tag;
#else
using cat_t = std::random_access_iterator_tag;
#endif
#define FAM int n, int f, int m, int s, int p, int sd
#define FAMA n, f, m, s, p, sd

#if PART == 1
// an element of the range may only be moved from by the functions its iterators provide
struct Guard; static Guard *g_lo, *g_hi, *g_blessed; static unsigned g_moves, g_swaps;
struct Guard {
    uint32_t key; uint16_t tag;
    Guard(uint32_t k, unsigned t) : key(k), tag((uint16_t)t) {}
    Guard() : key(0), tag(0xffff) {}
    void from(Guard& o) {
        if (!std::less<>{}(&o, g_lo) && std::less<>{}(&o, g_hi) && g_blessed != &o) sym_fail("an element was moved without the iter_move or iter_swap of its iterators");
        g_blessed = nullptr; key = o.key; tag = o.tag; if (&o != this) { o.tag = 0xeeee; o.key = 0xAA; }
    }
    Guard(Guard&& o) { from(o); } Guard& operator=(Guard&& o) { from(o); return *this; }
    Guard(const Guard&) = delete; Guard& operator=(const Guard&) = delete; ~Guard() {}
    void use() const {}
};
template<int How> struct GIt : It<Guard, cat_t> {        // How: 1 iter_move, 2 iter_swap, 3 both
    using B = It<Guard, cat_t>; using B::B; using difference_type = typename B::difference_type;
    GIt() = default; GIt(B b) : B(b) {}
    GIt& operator++() { ++this->p; return *this; } GIt operator++(int) { GIt r = *this; ++this->p; return r; }
#if CAT >= 1
    GIt& operator--() { --this->p; return *this; } GIt operator--(int) { GIt r = *this; --this->p; return r; }
#endif
#if CAT >= 2
    GIt& operator+=(difference_type d) { this->p += d; return *this; } GIt& operator-=(difference_type d) { this->p -= d; return *this; }
    friend GIt operator+(GIt a, difference_type d) { a.p += d; return a; } friend GIt operator+(difference_type d, GIt a) { a.p += d; return a; } friend GIt operator-(GIt a, difference_type d) { a.p -= d; return a; }
    friend difference_type operator-(const GIt& a, const GIt& b) { return a.p - b.p; }
#endif
};
Guard&& iter_move(GIt<1> i) { ++g_moves; g_blessed = i.p; return std::move(*i.p); }
Guard&& iter_move(GIt<3> i) { ++g_moves; g_blessed = i.p; return std::move(*i.p); }
template<class I> void raw_swap(I a, I b) { ++g_swaps; std::swap(a.p->key, b.p->key); std::swap(a.p->tag, b.p->tag); }
void iter_swap(GIt<3> a, GIt<3> b) { raw_swap(a, b); }
template<int How> void customised(FAM, bool proj) {
    std::vector<uint32_t> k; fill_keys(k, FAMA); Guard* v = (Guard*)sym_malloc(sizeof(Guard) * n); for (int i = 0; i < n; ++i) new (v + i) Guard(k[i], i);
    g_lo = v; g_hi = v + n; g_blessed = nullptr; g_moves = g_swaps = 0; using G = GIt<How>;
    sym_eager(1); if (proj) sorter_t{}(G(v), G(v + n), std::greater<>{}, &Guard::key); else sorter_t{}(G(v), G(v + n), KeyLess{}); sym_eager(0);
    g_lo = g_hi = nullptr; std::vector<uint8_t> seen(n); int ok = 1;
    for (int i = 0; i < n; ++i) { unsigned t = v[i].tag; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of the input"); ok &= v[i].key == k[t]; if (i) ok &= proj ? v[i - 1].key >= v[i].key : v[i - 1].key <= v[i].key; }
    sym_assert(ok, "the range is not sorted"); sym_free(v);
}
extern "C" void e_custom(int how, int proj, FAM) { if (how == 1) customised<1>(FAMA, proj); else customised<3>(FAMA, proj); }
#endif

#if PART == 2
// references are proxies: elements can only be read, moved and swapped through them
struct Cells { uint32_t key[1 << 13]; uint16_t tag[1 << 13]; };
struct Val { uint32_t key; uint16_t tag; Val(uint32_t k, uint16_t t) : key(k), tag(t) {} Val() : key(0), tag(0xffff) {} Val(Val&& o) : key(o.key), tag(o.tag) { if (&o != this) o.tag = 0xeeee; } Val& operator=(Val&& o) { if (&o != this) { key = o.key; tag = o.tag; o.tag = 0xeeee; } return *this; }
    Val(const Val&) = delete; Val& operator=(const Val&) = delete; ~Val() {} uint32_t k() const { return key; } };
static uint32_t* g_key; static uint16_t* g_tag;
struct Ref { ptrdiff_t i; Ref(ptrdiff_t j) : i(j) {} Ref(const Ref&) = default;
    ~Ref() { *(volatile ptrdiff_t*)&i = -1000000000; }             // a dead reference refers to nothing
    uint32_t k() const { return g_key[i]; }
    const Ref& operator=(Val&& v) const { g_key[i] = v.key; g_tag[i] = v.tag; v.tag = 0xeeee; return *this; }
    Ref& operator=(const Ref&) = delete; };
struct PIt { using iterator_category = cat_t; using value_type = Val; using difference_type = ptrdiff_t; using reference = Ref; using pointer = void;
    ptrdiff_t i = 0; Ref operator*() const { return Ref(i); }
    PIt& operator++() { ++i; return *this; } PIt operator++(int) { PIt r = *this; ++i; return r; }
    friend bool operator==(PIt a, PIt b) { return a.i == b.i; } friend bool operator!=(PIt a, PIt b) { return a.i != b.i; }
#if CAT >= 1
    PIt& operator--() { --i; return *this; } PIt operator--(int) { PIt r = *this; --i; return r; }
#endif
#if CAT >= 2
    PIt& operator+=(difference_type d) { i += d; return *this; } PIt& operator-=(difference_type d) { i -= d; return *this; } Ref operator[](difference_type d) const { return Ref(i + d); }
    friend PIt operator+(PIt a, difference_type d) { a.i += d; return a; } friend PIt operator+(difference_type d, PIt a) { a.i += d; return a; } friend PIt operator-(PIt a, difference_type d) { a.i -= d; return a; }
    friend difference_type operator-(PIt a, PIt b) { return a.i - b.i; }
    friend bool operator<(PIt a, PIt b) { return a.i < b.i; } friend bool operator>(PIt a, PIt b) { return a.i > b.i; } friend bool operator<=(PIt a, PIt b) { return a.i <= b.i; } friend bool operator>=(PIt a, PIt b) { return a.i >= b.i; }
#endif
    friend Val iter_move(PIt a) { Val v(g_key[a.i], g_tag[a.i]); g_tag[a.i] = 0xeeee; return v; }
    friend void iter_swap(PIt a, PIt b) { std::swap(g_key[a.i], g_key[b.i]); std::swap(g_tag[a.i], g_tag[b.i]); }
};
struct PLess { template<class A, class B> bool operator()(const A& a, const B& b) const { return a.k() < b.k(); } };
struct PKey { template<class A> uint32_t operator()(const A& a) const { return a.k(); } };
extern "C" void e_proxy(int proj, FAM) {
    std::vector<uint32_t> k; fill_keys(k, FAMA); g_key = (uint32_t*)sym_malloc(4 * n); g_tag = (uint16_t*)sym_malloc(2 * n); for (int i = 0; i < n; ++i) { g_key[i] = k[i]; g_tag[i] = i; }
    sym_eager(1); if (proj) sorter_t{}(PIt{0}, PIt{n}, std::greater<>{}, PKey{}); else sorter_t{}(PIt{0}, PIt{n}, PLess{}); sym_eager(0);
    std::vector<uint8_t> seen(n); int ok = 1;
    for (int i = 0; i < n; ++i) { unsigned t = g_tag[i]; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of the input"); ok &= g_key[i] == k[t]; if (i) ok &= proj ? g_key[i - 1] >= g_key[i] : g_key[i - 1] <= g_key[i]; }
    sym_assert(ok, "the range is not sorted"); sym_free(g_key); sym_free(g_tag);
}
#endif
