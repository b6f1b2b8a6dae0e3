// Run-time of the symbolic harnesses. The sym_* functions are interpreted by symx; for replays they are
// provided by native.cpp, which reads the counterexample's bytes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <utility>

extern "C" {
void sym_bytes(void* p, size_t n);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
[[noreturn]] void sym_fail(const char* msg);
void sym_observe(uint64_t v);
void sym_count(int i, uint64_t v);
int sym_native();
void* sym_malloc(size_t n);
void sym_free(void* p);
size_t sym_live();
uint64_t sym_concretize(uint64_t v);
int sym_fork(int c);
uint64_t sym_steps();
void sym_poison(void* p, size_t n);
// 1 if the n records of `size` bytes at a are a permutation of those at b
// 1: decisions turned into integers (select, zext i1) are branched on; 0: they stay symbolic terms
void sym_eager(int);
// proof help without meaning: the engine looks for pairs of the n bytes at p that are always ordered
void sym_order(const void* p, size_t n);
int sym_perm(const void* a, const void* b, size_t n, size_t size);
}

namespace vrt {
    // ---- allocation, with an optional failure schedule
    struct AllocState { bool armed; uint8_t fail_at, persist; unsigned count, failed; size_t limit; };   // limit: larger requests fail, if not 0
    extern AllocState g_alloc;
    inline void* do_alloc(size_t n) {
        if (g_alloc.limit && n > g_alloc.limit) return nullptr;
        if (g_alloc.armed) {
            unsigned i = g_alloc.count++;
            if (g_alloc.failed && g_alloc.persist) { ++g_alloc.failed; return nullptr; }
            if (!g_alloc.failed && i < 255 && g_alloc.fail_at == i) { ++g_alloc.failed; return nullptr; }
        }
        return sym_malloc(n);
    }
    inline uint8_t u8() { uint8_t x; sym_bytes(&x, 1); return x; }
    inline uint16_t u16() { uint16_t x; sym_bytes(&x, 2); return x; }
    inline uint32_t u32() { uint32_t x; sym_bytes(&x, 4); return x; }
    inline uint64_t u64() { uint64_t x; sym_bytes(&x, 8); return x; }
    inline uint8_t below(unsigned k) { uint8_t x = u8(); sym_assume(x < k); return x; }
    struct Rng { uint32_t s; explicit Rng(uint32_t seed = 1) : s(seed * 2654435761u + 12345u) {} uint32_t operator()() { s ^= s << 13; s ^= s >> 17; s ^= s << 5; return s; } uint32_t below(uint32_t n) { return n ? (*this)() % n : 0; } };
}

#ifndef VRT_NO_NEW
vrt::AllocState vrt::g_alloc;
void* operator new(size_t n) { void* p = vrt::do_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vrt::do_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vrt::do_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vrt::do_alloc(n); }
void operator delete(void* p) noexcept { sym_free(p); }
void operator delete[](void* p) noexcept { sym_free(p); }
void operator delete(void* p, size_t) noexcept { sym_free(p); }
void operator delete[](void* p, size_t) noexcept { sym_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sym_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sym_free(p); }
#endif
#ifndef VRT_NO_LIST
// std::list's non-inline node operations
#include <list>
namespace std { namespace __detail {
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
        if (x._M_next != &x) {
            if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
        } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
    }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
        if (this != last) {
            last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
            _List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
        }
    }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}}
#endif
