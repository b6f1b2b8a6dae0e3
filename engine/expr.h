// Bit-vector expression DAG (hash-consed, simplifying) + bit-blaster to MiniSat.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <chrono>
#include <minisat/core/Solver.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 {
    E_CONST, E_VAR, E_EXTRACT, E_CONCAT, E_ZEXT, E_SEXT,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_SLT, E_ITE,
    E_FEQ, E_FLT, E_FLE,      // ordered IEEE comparisons on 32/64-bit patterns
    E_FNAN
};

struct alignas(16) Expr {
    Op op; bool taint; uint16_t w; u32 id;
    Expr *a, *b, *c;
    u128 k;               // constant value / var id / extract low bit
    u64 hash;
    Expr* next;           // hash chain
    int lits;             // offset in literal pool, -1 if not blasted
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct ExprPool {
    std::vector<char*> blocks; size_t used = 0; static constexpr size_t BS = 1 << 20;
    std::vector<Expr*> table; size_t count = 0;
    ExprPool() { table.assign(1 << 16, nullptr); }
    void reset() {
        for (char* b : blocks) free(b);
        blocks.clear(); used = 0; count = 0;
        table.assign(1 << 16, nullptr);
    }
    Expr* raw() {
        if (blocks.empty() || used + sizeof(Expr) > BS) { blocks.push_back((char*)aligned_alloc(64, BS)); used = 0; }
        Expr* e = (Expr*)(blocks.back() + used); used += sizeof(Expr); return e;
    }
    static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
    Expr* mk(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k) {
        u64 h = mix(op * 131 + w, (u64)(uintptr_t)a); h = mix(h, (u64)(uintptr_t)b); h = mix(h, (u64)(uintptr_t)c);
        h = mix(h, (u64)k); h = mix(h, (u64)(k >> 64)); h ^= h >> 29;
        size_t i = h & (table.size() - 1);
        for (Expr* e = table[i]; e; e = e->next)
            if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
        if (count > table.size()) {
            std::vector<Expr*> old; old.swap(table); table.assign(old.size() * 4, nullptr);
            for (Expr* e : old) while (e) { Expr* n = e->next; size_t j = e->hash & (table.size() - 1); e->next = table[j]; table[j] = e; e = n; }
            i = h & (table.size() - 1);
        }
        Expr* e = raw();
        e->op = op; e->w = (uint16_t)w; e->a = a; e->b = b; e->c = c; e->k = k; e->hash = h; e->lits = -1; e->id = (u32)count;
        e->taint = (op == E_VAR && k >= (1u << 24)) || (a && a->taint) || (b && b->taint) || (c && c->taint);
        e->next = table[i]; table[i] = e; ++count;
        return e;
    }
};

extern ExprPool pool;

static inline bool isC(Expr* e) { return e->op == E_CONST; }
Expr* mkConst(unsigned w, u128 k);
Expr* mkVar(u32 id);                       // 8-bit variable
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkConcat(Expr* h, Expr* l);
Expr* mkZext(Expr* e, unsigned w);
Expr* mkSext(Expr* e, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
Expr* mkNot(Expr* a);                      // 1 bit
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkF(Op op, Expr* a, Expr* b);
std::string exprStr(Expr* e, int depth = 6);

// evaluation under a byte model (unassigned variables are 0)
u128 evalExpr(Expr* e, const std::vector<u8>& model);
std::vector<u128> evalMany(const std::vector<Expr*>& roots, const std::vector<u8>& model);

// ---------------------------------------------------------------- solver
struct Solver {
    Minisat::Solver* s = nullptr;
    std::vector<int> litpool;              // literals, 2*v+sign
    std::unordered_map<u64, int> andHash, xorHash;
    std::unordered_map<u32, int> varBase;  // var id -> first literal offset in litpool
    std::vector<u32> varList;
    bool gatesDecide = false;
    u64 nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0; double tSolve = 0;
    static constexpr int TRUE_ = 0, FALSE_ = 1;
    Solver() { reset(); }
    void reset();
    int nVars() { return s->nVars(); }
    int newVar(bool decide);
    int mkAnd(int a, int b);
    int mkOr(int a, int b) { return mkAnd(a ^ 1, b ^ 1) ^ 1; }
    int mkXor(int a, int b);
    int mkMux(int c, int a, int b);
    const int* blast(Expr* e);             // pointer valid until the next blast
    int lit1(Expr* e) { return blast(e)[0]; }
    void fulladd(int a, int b, int c, int& sum, int& cout);
    // 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<int>& assumptions, i64 confBudget = -1);
    void model(std::vector<u8>& m);        // overwrite the bytes known to the solver
};
