// container_aware_adapter on std::list and std::forward_list
#include "common.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorter_traits.h>
using namespace vrt;
namespace cs = cppsort;

static int g_nodes[3];                  // nodes alive per arena
template<class T> struct Arena {        // allocators of different arenas are not equal
    using value_type = T; int id; explicit Arena(int i = 1) : id(i) {} template<class U> Arena(const Arena<U>& o) : id(o.id) {}
    T* allocate(size_t n) { int* p = (int*)::operator new(n * sizeof(T) + 16); *p = id; ++g_nodes[id]; return (T*)(p + 4); }
    void deallocate(T* p, size_t) { int* q = (int*)p - 4; if (*q != id) sym_fail("a node was freed by another allocator than its own"); --g_nodes[id]; ::operator delete(q); }
    friend bool operator==(Arena a, Arena b) { return a.id == b.id; } friend bool operator!=(Arena a, Arena b) { return a.id != b.id; }
};
struct Elem : CopyT<uint32_t> { Elem(uint32_t k, unsigned t) : CopyT(k, t) {} friend bool operator<(const Elem& a, const Elem& b) { return KeyLess{}(a, b); } friend bool operator>(const Elem& a, const Elem& b) { return KeyGreater{}(a, b); } };
template<class E> using DL = std::list<E>; template<class E> using FL = std::forward_list<E>;
template<class E> using DA = std::list<E, Arena<E>>; template<class E> using FA = std::forward_list<E, Arena<E>>;
template<class L> L make(std::true_type) { return L(typename L::allocator_type(2)); } template<class L> L make(std::false_type) { return L(); }
// backwards as well, where there are links backwards
template<class E, class A> void links(std::list<E, A>& l, int n) { if ((int)l.size() != n) sym_fail("size() is not the number of elements"); auto f = l.begin(); std::vector<const E*> v; for (auto& x : l) v.push_back(&x); auto it = l.end(); for (int i = (int)v.size(); i-- > 0;) if (&*--it != v[i]) sym_fail("the list's backward links are wrong"); if (it != f) sym_fail("the list's backward links are wrong"); }
template<class E, class A> void links(std::forward_list<E, A>&, int) {}

template<class Sorter, class L, bool Alloc> void aware(int n, int f, int m, int s, int p, int sd, int form, bool stable, int throws) {
    {
        std::vector<uint32_t> k; fill_keys(k, n, f, m, s, p, sd); L l = make<L>(std::integral_constant<bool, Alloc>{});
        std::vector<const Elem*> node(n); std::vector<typename L::iterator> its(n, l.end());
        for (int i = n; i-- > 0;) { l.emplace_front(k[i], i); node[i] = &l.front(); its[i] = l.begin(); }
        ops = Ops{}; bool desc = false, threw = false; cs::container_aware_adapter<Sorter> sorter;
        if (throws) { ops.at = u16(); ops.kinds = K_COMP | K_PROJ; ops.armed = true; }
        sym_eager(1);
        try {
            switch (form) {
            case 0: sorter(l); break;
            case 1: sorter(l, KeyGreater{}); desc = true; break;
            case 2: sorter(l, KeyProj{}); break;
            case 3: sorter(l, IntLess{}, KeyProj{}); break;
            case 4: sorter(l, std::greater<>{}, &Elem::key); desc = true; break;
            case 5: sorter(l, KeyLess{}); break;
            }
        } catch (Boom& b) { threw = true; if (b.id != 42) sym_fail("another exception"); }
        ops.armed = false; sym_eager(0);
        if (threw != ops.fired) sym_fail("the exception was swallowed");
        if (ops.moves || ops.copies) sym_fail("an element was moved or copied");
        int cnt = 0; std::vector<uint8_t> seen(n); int ok = 1; const Elem* prev = nullptr;
        for (auto& x : l) {
            if (++cnt > n) sym_fail("the list does not end where it should");
            unsigned t = x.tag; sym_observe(t); if (t >= (unsigned)n || seen[t]++) sym_fail("the list holds a foreign element");
            if (&x != node[t]) sym_fail("an element is no longer in its node");
            if (&*its[t] != &x) sym_fail("an iterator was invalidated");
            ok &= x.key == k[t];
            if (prev && !threw) { ok &= desc ? prev->key >= x.key : prev->key <= x.key; if (stable && prev->tag > t) ok &= prev->key != x.key; }
            prev = &x;
        }
        links(l, cnt);
        if (!threw && cnt != n) sym_fail("an element was lost");
        if (g_alive < cnt || !threw && g_alive != n) sym_fail("elements leaked or died");
        sym_assert(ok, "the list is not sorted as documented");
    }
    if (g_alive) sym_fail("elements leaked");
    if (g_nodes[2]) sym_fail("nodes leaked");
}
#define GO(S, st) switch (which) { case 0: aware<S, DL<Elem>, false>(n, f, m, s, p, sd, form, st, throws); break; case 1: aware<S, FL<Elem>, false>(n, f, m, s, p, sd, form, st, throws); break; \
    case 2: aware<S, DA<Elem>, true>(n, f, m, s, p, sd, form, st, throws); break; case 3: aware<S, FA<Elem>, true>(n, f, m, s, p, sd, form, st, throws); break; }
extern "C" void e_insertion(int which, int form, int throws, int n, int f, int m, int s, int p, int sd) { GO(cs::insertion_sorter, true) }
extern "C" void e_selection(int which, int form, int throws, int n, int f, int m, int s, int p, int sd) { GO(cs::selection_sorter, true) }
extern "C" void e_merge(int which, int form, int throws, int n, int f, int m, int s, int p, int sd) { GO(cs::merge_sorter, true) }
extern "C" void e_mel(int which, int form, int throws, int n, int f, int m, int s, int p, int sd) { GO(cs::mel_sorter, false) }
