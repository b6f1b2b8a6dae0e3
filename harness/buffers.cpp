// Buffer providers of the buffered sorters: -DSORT=cppsort::grail_sorter ... -DG=group of providers
#include "common.h"
#include "cpp-sort/sorters/grail_sorter.h"
#include "cpp-sort/sorters/wiki_sorter.h"
#include "cpp-sort/sorters/block_sorter.h"
#include "cpp-sort/utility/buffer.h"
#include "cpp-sort/utility/functional.h"
using namespace vrt; namespace u = cppsort::utility;
#define FAM int n, int f, int m, int s, int p, int sd
#define FAMA n, f, m, s, p, sd
static size_t g_asked, g_buffers;
struct Same { template<class T> constexpr T operator()(T v) const { return v; } };
struct None { template<class T> constexpr int operator()(T) const { return 0; } };
struct One { template<class T> constexpr unsigned char operator()(T) const { return 1; } };
struct More { template<class T> constexpr size_t operator()(T v) const { return v + 7; } };
struct Less1 { template<class T> constexpr size_t operator()(T v) const { return v ? v - 1 : 0; } };
struct Third { double operator()(size_t v) const { return v / 3.0; } };
struct Vec { template<class T> using buffer = std::vector<T>; };               // "constructible with an std::size_t, and providing begin, end, cbegin, cend and size"
template<int Num, int Den, int Add> struct Own {                              // exactly what the documentation asks for, and iterators of class type
    template<class T> class buffer {
        T* p; size_t k; buffer(const buffer&) = delete; buffer& operator=(const buffer&) = delete;
    public:
        buffer(std::size_t n) : k(n * Num / Den + Add) { g_asked = n; ++g_buffers; p = (T*)sym_malloc(sizeof(T) * k); for (size_t i = 0; i < k; ++i) new (p + i) T(); }
        ~buffer() { for (size_t i = 0; i < k; ++i) p[i].~T(); sym_free(p); }
        Ra<T> begin() { return Ra<T>(p); } Ra<T> end() { return Ra<T>(p + k); } Ra<const T> cbegin() const { return Ra<const T>(p); } Ra<const T> cend() const { return Ra<const T>(p + k); }
        std::size_t size() const { return k; }
    };
};
template<class B> void run(FAM, int proj, bool own = false) {
    std::vector<uint32_t> k; fill_keys(k, FAMA); g_asked = ~(size_t)0; g_buffers = 0; g_alive = 0;
    { Tracked* v = (Tracked*)sym_malloc(sizeof(Tracked) * n); for (int i = 0; i < n; ++i) new (v + i) Tracked(k[i], i);
      sym_eager(1); if (proj) SORT<B>{}(v, v + n, std::greater<>{}, KeyProj{}); else SORT<B>{}(Ra<Tracked>(v), Ra<Tracked>(v + n), KeyLess{}); sym_eager(0);
      if (own && g_buffers && g_asked != (size_t)n) sym_fail("the buffer provider was not given the size of the collection");
      if (g_alive != n) sym_fail("an element of the buffer was not destroyed");
      std::vector<uint8_t> seen(n); int ok = 1, st = 1;
      for (int i = 0; i < n; ++i) { unsigned t = v[i].tag; sym_observe(t); v[i].use(); if (t >= (unsigned)n || seen[t]++) sym_fail("the range is not a permutation of the input"); ok &= v[i].key == k[t];
          if (i) { unsigned q = v[i - 1].tag; ok &= proj ? v[i - 1].key >= v[i].key : v[i - 1].key <= v[i].key; st &= v[i - 1].key != v[i].key || q < t; } }
      sym_assert(ok, "the range is not sorted"); sym_assert(st, "equivalent elements were reordered");
      for (int i = 0; i < n; ++i) v[i].~Tracked(); sym_free(v); }
}
extern "C" void e_buf(int which, int proj, FAM) {
    switch (which) {
#if G == 0
    case 0: run<u::fixed_buffer<0>>(FAMA, proj); break;
    case 1: run<u::fixed_buffer<1>>(FAMA, proj); break;
    case 2: run<u::fixed_buffer<2>>(FAMA, proj); break;
    case 3: run<u::fixed_buffer<3>>(FAMA, proj); break;
#elif G == 1
    case 0: run<u::fixed_buffer<5>>(FAMA, proj); break;
    case 1: run<u::fixed_buffer<8>>(FAMA, proj); break;
    case 2: run<u::fixed_buffer<17>>(FAMA, proj); break;
    case 3: run<u::fixed_buffer<40>>(FAMA, proj); break;
#elif G == 2
    case 0: run<u::dynamic_buffer<u::half>>(FAMA, proj); break;
    case 1: run<u::dynamic_buffer<u::sqrt>>(FAMA, proj); break;
    case 2: run<u::dynamic_buffer<u::log>>(FAMA, proj); break;
    case 3: run<u::dynamic_buffer<u::identity>>(FAMA, proj); break;
#elif G == 3
    case 0: run<u::dynamic_buffer<None>>(FAMA, proj); break;
    case 1: run<u::dynamic_buffer<One>>(FAMA, proj); break;
    case 2: run<u::dynamic_buffer<More>>(FAMA, proj); break;
    case 3: run<u::dynamic_buffer<Less1>>(FAMA, proj); break;
#elif G == 4
    case 0: run<Vec>(FAMA, proj); break;
    case 1: run<Own<1, 4, 0>>(FAMA, proj, true); break;
    case 2: run<Own<1, 2, 1>>(FAMA, proj, true); break;
    case 3: run<Own<0, 1, 11>>(FAMA, proj, true); break;
#endif
    }
}
#if G == 5
// the buffers themselves
template<class B> void members(B& b, size_t want) {
    const B& c = b; int ok = 1;
    ok &= b.size() == want; ok &= (size_t)(b.end() - b.begin()) == want; ok &= (size_t)(c.end() - c.begin()) == want; ok &= (size_t)(b.cend() - b.cbegin()) == want; ok &= c.size() == want;
    std::vector<uint32_t> v(want); for (size_t i = 0; i < want; ++i) { v[i] = u32(); b[i] = v[i]; }
    for (size_t i = 0; i < want; ++i) { ok &= *(b.begin() + i) == v[i]; ok &= c[i] == v[i]; ok &= *(b.cbegin() + i) == v[i]; ok &= *(c.begin() + i) == v[i]; *(b.begin() + i) = v[i] + 1; ok &= b[i] == v[i] + 1; ok &= &b[i] == &b.begin()[i]; }
    sym_assert(ok, "begin, end, size and operator[] of the buffer disagree");
}
template<size_t N> void fix(size_t n) { typename u::fixed_buffer<N>::template buffer<uint32_t> b(n); members(b, N); }
template<class P> void dyn(size_t n, size_t want) { typename u::dynamic_buffer<P>::template buffer<uint32_t> b(n); members(b, want); }
extern "C" void e_members(int which, int n) {
    switch (which) {
    case 0: fix<0>(n); break; case 1: fix<1>(n); break; case 2: fix<7>(n); break; case 3: fix<64>(n); break;
    case 4: dyn<u::half>(n, n / 2); break; case 5: dyn<u::identity>(n, n); break; case 6: dyn<None>(n, 0); break; case 7: dyn<More>(n, n + 7); break;
    case 8: dyn<Third>(n, n / 3); break;
    case 9: { size_t r = 0; while ((r + 1) * (r + 1) <= (size_t)n) ++r; dyn<u::sqrt>(n, r); break; }
    }
}
#endif
