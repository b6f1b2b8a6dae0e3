#include "expr.h"
#include <algorithm>
ExprPool pool;

Expr* mkConst(unsigned w, u128 k) { return pool.mk(E_CONST, w, 0, 0, 0, k & maskw(w)); }
Expr* mkVar(u32 id) { return pool.mk(E_VAR, 8, 0, 0, 0, id); }

Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
    case E_CONST: return mkConst(w, e->k >> lo);
    case E_EXTRACT: return mkExtract(e->a, lo + (unsigned)e->k, w);
    case E_CONCAT: {
        unsigned lw = e->b->w;
        if (lo + w <= lw) return mkExtract(e->b, lo, w);
        if (lo >= lw) return mkExtract(e->a, lo - lw, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case E_ZEXT: {
        unsigned xw = e->a->w;
        if (lo + w <= xw) return mkExtract(e->a, lo, w);
        if (lo >= xw) return mkConst(w, 0);
        return mkZext(mkExtract(e->a, lo, xw - lo), w);
    }
    case E_SEXT: {
        unsigned xw = e->a->w;
        if (lo + w <= xw) return mkExtract(e->a, lo, w);
        if (lo < xw) return mkSext(mkExtract(e->a, lo, xw - lo), w);
        return mkSext(mkExtract(e->a, xw - 1, 1), w);
    }
    case E_AND: case E_OR: case E_XOR:
        return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case E_ITE:
        return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
    case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    default: break;
    }
    return pool.mk(E_EXTRACT, w, e, 0, 0, lo);
}

static Expr* tryMerge(Expr* h, Expr* l) {
    if (isC(h) && isC(l)) return mkConst(h->w + l->w, (h->k << l->w) | l->k);
    Expr *hx = h, *lx = l; unsigned hl = 0, ll = 0;
    if (h->op == E_EXTRACT) { hx = h->a; hl = (unsigned)h->k; }
    if (l->op == E_EXTRACT) { lx = l->a; ll = (unsigned)l->k; }
    if (hx == lx && hl == ll + l->w && (h->op == E_EXTRACT)) return mkExtract(hx, ll, h->w + l->w);
    return nullptr;
}

Expr* mkConcat(Expr* h, Expr* l) {
    if (Expr* m = tryMerge(h, l)) return m;
    if (isC(h) && h->k == 0) return mkZext(l, h->w + l->w);
    if (h->op == E_ZEXT) return mkZext(mkConcat(h->a, l), h->w + l->w);
    if (h->op == E_CONCAT) return mkConcat(h->a, mkConcat(h->b, l));
    if (l->op == E_CONCAT) if (Expr* m = tryMerge(h, l->a)) return mkConcat(m, l->b);
    return pool.mk(E_CONCAT, h->w + l->w, h, l, 0, 0);
}

Expr* mkZext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return mkConst(w, e->k);
    if (e->op == E_ZEXT) return mkZext(e->a, w);
    return pool.mk(E_ZEXT, w, e, 0, 0, 0);
}
Expr* mkSext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return mkConst(w, (u128)sxt(e->k, e->w));
    if (e->op == E_SEXT) return mkSext(e->a, w);
    if (e->op == E_ZEXT) return mkZext(e->a, w);
    return pool.mk(E_SEXT, w, e, 0, 0, 0);
}
Expr* mkNot(Expr* a) { return mkBin(E_XOR, a, mkConst(1, 1)); }

static unsigned cutOf(Expr* e) {
    if (e->op == E_CONCAT) return e->b->w;
    if (e->op == E_ZEXT) return e->a->w;
    return 0;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w; u128 M = maskw(w);
    if (isC(a) && isC(b)) {
        u128 x = a->k, y = b->k, r = 0;
        switch (op) {
        case E_ADD: r = x + y; break;
        case E_SUB: r = x - y; break;
        case E_MUL: r = x * y; break;
        case E_UDIV: r = y ? x / y : M; break;
        case E_UREM: r = y ? x % y : x; break;
        case E_SDIV: { i128 p = sxt(x, w), q = sxt(y, w); r = q == 0 ? (p < 0 ? 1 : M) : q == -1 ? (u128)0 - (u128)p : (u128)(p / q); break; }
        case E_SREM: { i128 p = sxt(x, w), q = sxt(y, w); r = q == 0 ? (u128)p : q == -1 ? 0 : (u128)(p % q); break; }
        case E_AND: r = x & y; break;
        case E_OR: r = x | y; break;
        case E_XOR: r = x ^ y; break;
        case E_SHL: r = y >= w ? 0 : x << (unsigned)y; break;
        case E_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
        case E_ASHR: r = (u128)(sxt(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
        default: abort();
        }
        return mkConst(w, r);
    }
    // commutative: constant to the right
    if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR) && isC(a)) std::swap(a, b);
    switch (op) {
    case E_ADD:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(w, a->b->k + b->k));
        } else {
            if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
            if (b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        if (w == 1) return mkBin(E_XOR, a, b);
        break;
    case E_SUB:
        if (a == b) return mkConst(w, 0);
        if (isC(b)) return mkBin(E_ADD, a, mkConst(w, (u128)0 - b->k));
        if (a->op == E_ADD && a->a == b) return a->b;
        if (a->op == E_ADD && a->b == b) return a->a;
        if (a->op == E_ADD && isC(a->b) && b->op == E_ADD && isC(b->b))
            return mkBin(E_ADD, mkBin(E_SUB, a->a, b->a), mkConst(w, a->b->k - b->b->k));
        if (w == 1) return mkBin(E_XOR, a, b);
        break;
    case E_MUL:
        if (isC(b)) {
            if (b->k == 0) return b;
            if (b->k == 1) return a;
            if ((b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) ++s; return mkBin(E_SHL, a, mkConst(w, s)); }
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    case E_UDIV:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (!((b->k >> s) & 1)) ++s; return mkBin(E_LSHR, a, mkConst(w, s)); }
        if (a->op == E_ZEXT && isC(b) && b->k && b->k <= maskw(a->a->w)) return mkZext(mkBin(E_UDIV, a->a, mkConst(a->a->w, b->k)), w);
        break;
    case E_UREM:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(E_AND, a, mkConst(w, b->k - 1));
        if (a->op == E_ZEXT && isC(b) && b->k && b->k <= maskw(a->a->w)) return mkZext(mkBin(E_UREM, a->a, mkConst(a->a->w, b->k)), w);
        break;
    case E_SHL:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            unsigned s = (unsigned)b->k; return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
        }
        break;
    case E_LSHR:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            unsigned s = (unsigned)b->k; return mkZext(mkExtract(a, s, w - s), w);
        }
        break;
    case E_ASHR:
        if (isC(b)) {
            if (b->k == 0) return a;
            unsigned s = b->k >= w ? w - 1 : (unsigned)b->k; return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    case E_AND: case E_OR: case E_XOR: {
        if (a == b) return op == E_XOR ? mkConst(w, 0) : a;
        if (op == E_XOR && w > 1) {       // x ^ (y ^ x) = y, one level deeper too
            auto cancel = [&](Expr* x, Expr* t) -> Expr* {
                if (t->op != E_XOR) return nullptr;
                if (t->a == x) return t->b; if (t->b == x) return t->a;
                if (t->a->op == E_XOR) { if (t->a->a == x) return mkBin(E_XOR, t->a->b, t->b); if (t->a->b == x) return mkBin(E_XOR, t->a->a, t->b); }
                if (t->b->op == E_XOR) { if (t->b->a == x) return mkBin(E_XOR, t->b->b, t->a); if (t->b->b == x) return mkBin(E_XOR, t->b->a, t->a); }
                return nullptr;
            };
            if (Expr* q = cancel(a, b)) return q;
            if (Expr* q = cancel(b, a)) return q;
            if (a->op == E_XOR) { if (Expr* q = cancel(a->a, b)) return mkBin(E_XOR, a->b, q); if (Expr* q = cancel(a->b, b)) return mkBin(E_XOR, a->a, q); }
        }
        if (isC(b)) {
            if (b->k == 0) return op == E_AND ? b : a;
            if (b->k == M) { if (op == E_AND) return a; if (op == E_OR) return b; }
            if (op == E_XOR && a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(w, a->b->k ^ b->k));
            if (op == E_XOR && w == 1 && a->op == E_ITE) return mkIte(a->a, mkBin(E_XOR, a->b, b), mkBin(E_XOR, a->c, b));
            if (op == E_AND && w > 1) {
                // split the mask in runs
                unsigned runs = 1; for (unsigned i = 1; i < w; ++i) if (((b->k >> i) & 1) != ((b->k >> (i - 1)) & 1)) ++runs;
                if (runs <= 5) {
                    Expr* r = nullptr; unsigned i = 0;
                    while (i < w) {
                        unsigned j = i; bool bit = (b->k >> i) & 1; while (j < w && (bool)((b->k >> j) & 1) == bit) ++j;
                        Expr* seg = bit ? mkExtract(a, i, j - i) : mkConst(j - i, 0);
                        r = r ? mkConcat(seg, r) : seg; i = j;
                    }
                    return r;
                }
            }
        } else if (w == 1) {
            // complementary operands
            Expr *x = a, *y = b; bool nx = false, ny = false;
            if (x->op == E_XOR && isC(x->b)) { x = x->a; nx = true; }
            if (y->op == E_XOR && isC(y->b)) { y = y->a; ny = true; }
            if (x == y && nx != ny) return mkConst(1, op == E_AND ? 0 : 1);
        }
        if (w > 1) {
            unsigned cut = cutOf(a); if (!cut) cut = cutOf(b);
            if (cut) {
                Expr *ah = mkExtract(a, cut, w - cut), *al = mkExtract(a, 0, cut);
                Expr *bh = mkExtract(b, cut, w - cut), *bl = mkExtract(b, 0, cut);
                if (isC(ah) || isC(al) || isC(bh) || isC(bl))
                    return mkConcat(mkBin(op, ah, bh), mkBin(op, al, bl));
            }
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    }
    default: break;
    }
    return pool.mk(op, w, a, b, 0, 0);
}

Expr* mkEq(Expr* a, Expr* b) {
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkConst(1, a->k == b->k);
    unsigned w = a->w;
    if (isC(b)) {
        if (w == 1) return b->k ? a : mkNot(a);
        switch (a->op) {
        case E_ZEXT:
            if (b->k >> a->a->w) return mkConst(1, 0);
            return mkEq(a->a, mkConst(a->a->w, b->k));
        case E_SEXT: {
            Expr* t = mkConst(a->a->w, b->k);
            if (((u128)sxt(t->k, t->w) & maskw(w)) != b->k) return mkConst(1, 0);
            return mkEq(a->a, t);
        }
        case E_CONCAT:
            return mkBin(E_AND, mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
        case E_ADD:
            if (isC(a->b)) return mkEq(a->a, mkConst(w, b->k - a->b->k));
            break;
        case E_SUB: if (b->k == 0) return mkEq(a->a, a->b); break;
        case E_XOR:
            if (isC(a->b)) return mkEq(a->a, mkConst(w, b->k ^ a->b->k));
            if (b->k == 0) return mkEq(a->a, a->b);
            break;
        case E_ITE:
            if (isC(a->b) && isC(a->c)) {
                bool p = a->b->k == b->k, q = a->c->k == b->k;
                if (p && q) return mkConst(1, 1);
                if (p) return a->a;
                if (q) return mkNot(a->a);
                return mkConst(1, 0);
            }
            if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
            break;
        default: break;
        }
    } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT) {
            unsigned m = std::max(a->a->w, b->a->w);
            if (m < w) return mkEq(mkZext(a->a, m), mkZext(b->a, m));
        }
        if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
        if (w == 1) return mkNot(mkBin(E_XOR, a, b));
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) {
            if (isC(a->b) && isC(b->b)) return a->b->k == b->b->k ? mkEq(a->a, b->a) : mkConst(1, 0);
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->a) return mkEq(a->b, b->b);
        }
        if (a->id > b->id) std::swap(a, b);
    }
    return pool.mk(E_EQ, 1, a, b, 0, 0);
}

Expr* mkUlt(Expr* a, Expr* b) {
    if (a == b) return mkConst(1, 0);
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkConst(1, a->k < b->k);
    if (isC(b)) {
        if (b->k == 0) return b->w == 1 ? b : mkConst(1, 0);
        if (b->k == 1) return mkEq(a, mkConst(w, 0));
        if (b->k == maskw(w)) return mkNot(mkEq(a, b));
        if (a->op == E_ZEXT) {
            if (b->k >> a->a->w) return mkConst(1, 1);
            return mkUlt(a->a, mkConst(a->a->w, b->k));
        }
    }
    if (isC(a)) {
        if (a->k == maskw(w)) return mkConst(1, 0);
        if (a->k == 0) return mkNot(mkEq(b, a));
        if (b->op == E_ZEXT) {
            if (a->k >> b->a->w) return mkConst(1, 0);
            return mkUlt(mkConst(b->a->w, a->k), b->a);
        }
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT) {
        unsigned m = std::max(a->a->w, b->a->w);
        if (m < w) return mkUlt(mkZext(a->a, m), mkZext(b->a, m));
    }
    {   // (h1,l1) < (h2,l2) with constant low parts: a comparison of the high parts
        unsigned c = a->op == E_CONCAT ? a->b->w : b->op == E_CONCAT ? b->b->w : 0;
        if (c && (isC(a) || (a->op == E_CONCAT && a->b->w == c)) && (isC(b) || (b->op == E_CONCAT && b->b->w == c))) {
            Expr *al = mkExtract(a, 0, c), *bl = mkExtract(b, 0, c), *ah = mkExtract(a, c, w - c), *bh = mkExtract(b, c, w - c);
            if (isC(al) && isC(bl)) return al->k < bl->k ? mkNot(mkUlt(bh, ah)) : mkUlt(ah, bh);
            if (al == bl) return mkUlt(ah, bh);
            if (ah == bh) return mkUlt(al, bl);
        }
    }
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (b->op == E_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    return pool.mk(E_ULT, 1, a, b, 0, 0);
}
static bool nonneg(Expr* e) {
    if (isC(e)) return !((e->k >> (e->w - 1)) & 1);
    return e->op == E_ZEXT;
}
Expr* mkSlt(Expr* a, Expr* b) {
    if (a == b) return mkConst(1, 0);
    if (isC(a) && isC(b)) return mkConst(1, sxt(a->k, a->w) < sxt(b->k, b->w));
    if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
    if (isC(b) && b->k == 0) {
        if (nonneg(a)) return mkConst(1, 0);
        return mkExtract(a, a->w - 1, 1);
    }
    if (isC(a) && a->k == maskw(a->w)) return mkNot(mkExtract(b, b->w - 1, 1));   // -1 < b  <=>  b >= 0
    if (a->op == E_SEXT && b->op == E_SEXT) {
        unsigned m = std::max(a->a->w, b->a->w);
        if (m < a->w) return mkSlt(mkSext(a->a, m), mkSext(b->a, m));
    }
    if (a->op == E_SEXT && isC(b)) {
        Expr* t = mkConst(a->a->w, b->k);
        if (((u128)sxt(t->k, t->w) & maskw(a->w)) == b->k) return mkSlt(a->a, t);
        return mkConst(1, !((b->k >> (b->w - 1)) & 1));
    }
    if (b->op == E_SEXT && isC(a)) {
        Expr* t = mkConst(b->a->w, a->k);
        if (((u128)sxt(t->k, t->w) & maskw(a->w)) == a->k) return mkSlt(t, b->a);
        return mkConst(1, (a->k >> (a->w - 1)) & 1);
    }
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
    if (b->op == E_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
    return pool.mk(E_SLT, 1, a, b, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == E_XOR && isC(c->b)) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
        if (isC(a)) return a->k ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
        if (isC(b)) return b->k ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
    }
    if (a->op == E_ITE && a->a == c) a = a->b;
    if (b->op == E_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    return pool.mk(E_ITE, a->w, c, a, b, 0);
}

// floating point comparisons on bit patterns
static double asD(u128 v, unsigned w) {
    if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
    u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d;
}
Expr* mkF(Op op, Expr* a, Expr* b) {
    if (isC(a) && (op == E_FNAN || isC(b))) {
        double x = asD(a->k, a->w), y = b ? asD(b->k, b->w) : 0;
        bool r = op == E_FEQ ? x == y : op == E_FLT ? x < y : op == E_FLE ? x <= y : x != x;
        return mkConst(1, r);
    }
    return pool.mk(op, 1, a, b, 0, 0);
}

u128 evalExpr(Expr* root, const std::vector<u8>& model) { return evalMany({root}, model)[0]; }
std::vector<u128> evalMany(const std::vector<Expr*>& roots, const std::vector<u8>& model) {
    std::unordered_map<Expr*, u128> memo; std::vector<Expr*> st(roots);
    while (!st.empty()) {
        Expr* e = st.back();
        if (memo.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (Expr* x : {e->a, e->b, e->c}) if (x && !memo.count(x)) { st.push_back(x); ready = false; }
        if (!ready) continue;
        st.pop_back();
        u128 A = e->a ? memo[e->a] : 0, B = e->b ? memo[e->b] : 0, C = e->c ? memo[e->c] : 0, r = 0;
        switch (e->op) {
        case E_CONST: r = e->k; break;
        case E_VAR: r = e->k < model.size() ? model[(size_t)e->k] : 0; break;
        case E_EXTRACT: r = A >> (unsigned)e->k; break;
        case E_CONCAT: r = (A << e->b->w) | B; break;
        case E_ZEXT: r = A; break;
        case E_SEXT: r = (u128)sxt(A, e->a->w); break;
        case E_EQ: r = A == B; break;
        case E_ULT: r = A < B; break;
        case E_SLT: r = sxt(A, e->a->w) < sxt(B, e->a->w); break;
        case E_ITE: r = A ? B : C; break;
        case E_FEQ: r = asD(A, e->a->w) == asD(B, e->a->w); break;
        case E_FLT: r = asD(A, e->a->w) < asD(B, e->a->w); break;
        case E_FLE: r = asD(A, e->a->w) <= asD(B, e->a->w); break;
        case E_FNAN: { double d = asD(A, e->a->w); r = d != d; break; }
        default: { Expr* t = mkBin(e->op, mkConst(e->w, A), mkConst(e->w, B)); r = t->k; }
        }
        memo[e] = r & maskw(e->w);
    }
    std::vector<u128> out; for (Expr* e : roots) out.push_back(memo[e]);
    return out;
}

std::string exprStr(Expr* e, int d) {
    static const char* N[] = {"const", "var", "extract", "concat", "zext", "sext", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>", "a>>", "==", "u<", "s<", "ite", "f==", "f<", "f<=", "isnan"};
    if (e->op == E_CONST) return std::to_string((unsigned long long)e->k) + ":" + std::to_string(e->w);
    if (e->op == E_VAR) return "v" + std::to_string((unsigned long long)e->k);
    if (d == 0) return "...";
    std::string s = "("; s += N[e->op];
    if (e->op == E_EXTRACT) s += "[" + std::to_string((unsigned)e->k) + "+" + std::to_string(e->w) + "]";
    for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}

// ---------------------------------------------------------------- bit-blaster
void Solver::reset() {
    delete s; s = new Minisat::Solver();
    s->verbosity = 0; s->ccmin_mode = 2;
    litpool.clear(); andHash.clear(); xorHash.clear(); varBase.clear(); varList.clear();
    int v = newVar(true); (void)v;         // variable 0 is TRUE
    s->addClause(Minisat::mkLit(0, false));
}
int Solver::newVar(bool decide) { return s->newVar(Minisat::lbool((uint8_t)2), decide || gatesDecide); }
static inline Minisat::Lit L(int l) { return Minisat::mkLit(l >> 1, l & 1); }

int Solver::mkAnd(int a, int b) {
    if (a == FALSE_ || b == FALSE_ || a == (b ^ 1)) return FALSE_;
    if (a == TRUE_) return b;
    if (b == TRUE_ || a == b) return a;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)(u32)a << 32) | (u32)b;
    auto it = andHash.find(key); if (it != andHash.end()) return it->second;
    int o = newVar(false) * 2;
    s->addClause(L(a), L(o ^ 1)); s->addClause(L(b), L(o ^ 1)); s->addClause(L(a ^ 1), L(b ^ 1), L(o));
    andHash[key] = o; return o;
}
int Solver::mkXor(int a, int b) {
    if (a == FALSE_) return b;
    if (b == FALSE_) return a;
    if (a == TRUE_) return b ^ 1;
    if (b == TRUE_) return a ^ 1;
    if (a == b) return FALSE_;
    if (a == (b ^ 1)) return TRUE_;
    int sg = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b);
    u64 key = ((u64)(u32)a << 32) | (u32)b;
    auto it = xorHash.find(key); if (it != xorHash.end()) return it->second ^ sg;
    int o = newVar(false) * 2;
    s->addClause(L(a), L(b), L(o ^ 1)); s->addClause(L(a ^ 1), L(b ^ 1), L(o ^ 1));
    s->addClause(L(a), L(b ^ 1), L(o)); s->addClause(L(a ^ 1), L(b), L(o));
    xorHash[key] = o; return o ^ sg;
}
int Solver::mkMux(int c, int a, int b) {
    if (c == TRUE_) return a;
    if (c == FALSE_) return b;
    if (a == b) return a;
    if (a == TRUE_ || a == c) return mkOr(c, b);
    if (a == FALSE_ || a == (c ^ 1)) return mkAnd(c ^ 1, b);
    if (b == TRUE_ || b == (c ^ 1)) return mkOr(c ^ 1, a);
    if (b == FALSE_ || b == c) return mkAnd(c, a);
    if (a == (b ^ 1)) return mkXor(c, b);
    return mkOr(mkAnd(c, a), mkAnd(c ^ 1, b));
}
void Solver::fulladd(int a, int b, int c, int& sum, int& cout) {
    int x = mkXor(a, b);
    sum = mkXor(x, c);
    cout = mkOr(mkAnd(a, b), mkAnd(x, c));
}

const int* Solver::blast(Expr* root) {
    std::vector<Expr*> st{root};
    while (!st.empty()) {
        Expr* e = st.back();
        if (e->lits >= 0) { st.pop_back(); continue; }
        bool ready = true;
        for (Expr* x : {e->a, e->b, e->c}) if (x && x->lits < 0) { st.push_back(x); ready = false; }
        if (!ready) continue;
        st.pop_back();
        unsigned w = e->w; std::vector<int> r(w);
        auto A = [&](unsigned i) { return litpool[e->a->lits + i]; };
        auto B = [&](unsigned i) { return litpool[e->b->lits + i]; };
        auto C = [&](unsigned i) { return litpool[e->c->lits + i]; };
        auto add = [&](const std::vector<int>& x, const std::vector<int>& y, int cin) {
            std::vector<int> o(x.size()); int c = cin;
            for (size_t i = 0; i < x.size(); ++i) { int sm, co; fulladd(x[i], y[i], c, sm, co); o[i] = sm; c = co; }
            return o;
        };
        auto vec = [&](Expr* x) { return std::vector<int>(litpool.begin() + x->lits, litpool.begin() + x->lits + x->w); };
        auto ult = [&](const std::vector<int>& x, const std::vector<int>& y) {
            int lt = FALSE_; for (size_t i = 0; i < x.size(); ++i) lt = mkMux(mkXor(x[i], y[i]), y[i], lt); return lt;
        };
        auto neg = [&](std::vector<int> x) { std::vector<int> z(x.size(), FALSE_); for (auto& l : x) l ^= 1; return add(x, z, TRUE_); };
        auto mux = [&](int c, const std::vector<int>& x, const std::vector<int>& y) { std::vector<int> o(x.size()); for (size_t i = 0; i < x.size(); ++i) o[i] = mkMux(c, x[i], y[i]); return o; };
        auto divmod = [&](const std::vector<int>& x, const std::vector<int>& y, std::vector<int>& q, std::vector<int>& rm) {
            size_t n = x.size(); q.assign(n, FALSE_); rm.assign(n + 1, FALSE_); std::vector<int> yy = y; yy.push_back(FALSE_);
            for (size_t i = n; i-- > 0;) {
                for (size_t j = n; j > 0; --j) rm[j] = rm[j - 1];
                rm[0] = x[i];
                int ge = ult(rm, yy) ^ 1; q[i] = ge;
                std::vector<int> ny = yy; for (auto& l : ny) l ^= 1;
                rm = mux(ge, add(rm, ny, TRUE_), rm);
            }
            rm.resize(n);
        };
        switch (e->op) {
        case E_CONST: for (unsigned i = 0; i < w; ++i) r[i] = ((e->k >> i) & 1) ? TRUE_ : FALSE_; break;
        case E_VAR:
            for (unsigned i = 0; i < w; ++i) r[i] = newVar(true) * 2;
            varBase[(u32)e->k] = (int)litpool.size(); varList.push_back((u32)e->k);
            break;
        case E_EXTRACT: for (unsigned i = 0; i < w; ++i) r[i] = A(i + (unsigned)e->k); break;
        case E_CONCAT: for (unsigned i = 0; i < w; ++i) r[i] = i < e->b->w ? B(i) : A(i - e->b->w); break;
        case E_ZEXT: for (unsigned i = 0; i < w; ++i) r[i] = i < e->a->w ? A(i) : FALSE_; break;
        case E_SEXT: for (unsigned i = 0; i < w; ++i) r[i] = i < e->a->w ? A(i) : A(e->a->w - 1); break;
        case E_ADD: r = add(vec(e->a), vec(e->b), FALSE_); break;
        case E_SUB: { auto y = vec(e->b); for (auto& l : y) l ^= 1; r = add(vec(e->a), y, TRUE_); break; }
        case E_MUL: {
            auto x = vec(e->a), y = vec(e->b); std::vector<int> acc(w, FALSE_);
            for (unsigned i = 0; i < w; ++i) {
                if (y[i] == FALSE_) continue;
                std::vector<int> t(w, FALSE_); for (unsigned j = i; j < w; ++j) t[j] = mkAnd(x[j - i], y[i]);
                acc = add(acc, t, FALSE_);
            }
            r = acc; break;
        }
        case E_UDIV: case E_UREM: { std::vector<int> q, m; divmod(vec(e->a), vec(e->b), q, m); r = e->op == E_UDIV ? q : m; break; }
        case E_SDIV: case E_SREM: {
            auto x = vec(e->a), y = vec(e->b); int sx = x.back(), sy = y.back();
            auto ax = mux(sx, neg(x), x), ay = mux(sy, neg(y), y); std::vector<int> q, m; divmod(ax, ay, q, m);
            if (e->op == E_SDIV) r = mux(mkXor(sx, sy), neg(q), q); else r = mux(sx, neg(m), m);
            break;
        }
        case E_AND: for (unsigned i = 0; i < w; ++i) r[i] = mkAnd(A(i), B(i)); break;
        case E_OR: for (unsigned i = 0; i < w; ++i) r[i] = mkOr(A(i), B(i)); break;
        case E_XOR: for (unsigned i = 0; i < w; ++i) r[i] = mkXor(A(i), B(i)); break;
        case E_SHL: case E_LSHR: case E_ASHR: {
            auto x = vec(e->a), y = vec(e->b); int fill = e->op == E_ASHR ? x.back() : FALSE_;
            unsigned st2 = 0; while ((1u << st2) < w) ++st2;
            int big = FALSE_;
            for (unsigned i = 0; i < w; ++i) if (i >= 32 || i > st2 || (1u << i) >= w) if (!(i < st2)) big = mkOr(big, y[i]);
            for (unsigned k = 0; k < st2 && k < w; ++k) {
                unsigned d = 1u << k; std::vector<int> t(w);
                for (unsigned i = 0; i < w; ++i) t[i] = e->op == E_SHL ? (i >= d ? x[i - d] : FALSE_) : (i + d < w ? x[i + d] : fill);
                x = mux(y[k], t, x);
            }
            for (unsigned i = 0; i < w; ++i) r[i] = mkMux(big, fill, x[i]);
            break;
        }
        case E_EQ: { int o = TRUE_; for (unsigned i = 0; i < e->a->w; ++i) o = mkAnd(o, mkXor(A(i), B(i)) ^ 1); r[0] = o; break; }
        case E_ULT: r[0] = ult(vec(e->a), vec(e->b)); break;
        case E_SLT: { auto x = vec(e->a), y = vec(e->b); x.back() ^= 1; y.back() ^= 1; r[0] = ult(x, y); break; }
        case E_ITE: for (unsigned i = 0; i < w; ++i) r[i] = mkMux(A(0), B(i), C(i)); break;
        case E_FNAN: case E_FEQ: case E_FLT: case E_FLE: {
            auto nan = [&](const std::vector<int>& x) {
                unsigned mb = x.size() == 32 ? 23 : 52; int ex = TRUE_, ma = FALSE_;
                for (unsigned i = mb; i + 1 < x.size(); ++i) ex = mkAnd(ex, x[i]);
                for (unsigned i = 0; i < mb; ++i) ma = mkOr(ma, x[i]);
                return mkAnd(ex, ma);
            };
            auto x = vec(e->a);
            if (e->op == E_FNAN) { r[0] = nan(x); break; }
            auto y = vec(e->b);
            int ord = mkAnd(nan(x) ^ 1, nan(y) ^ 1);
            int zx = TRUE_, zy = TRUE_, eq = TRUE_;
            for (size_t i = 0; i + 1 < x.size(); ++i) { zx = mkAnd(zx, x[i] ^ 1); zy = mkAnd(zy, y[i] ^ 1); }
            for (size_t i = 0; i < x.size(); ++i) eq = mkAnd(eq, mkXor(x[i], y[i]) ^ 1);
            int bz = mkAnd(zx, zy); eq = mkOr(eq, bz);
            int sx = x.back(), sy = y.back();
            std::vector<int> mx(x.begin(), x.end() - 1), my(y.begin(), y.end() - 1);
            int l1 = ult(mx, my), l2 = ult(my, mx);
            // x<y : sx&!sy (not both zero) | !sx&!sy&mx<my | sx&sy&my<mx
            int lt = mkMux(sx, mkMux(sy, l2, bz ^ 1), mkAnd(sy ^ 1, l1));
            int o = e->op == E_FEQ ? eq : e->op == E_FLT ? lt : mkOr(lt, eq);
            r[0] = mkAnd(ord, o); break;
        }
        default: fprintf(stderr, "blast: op %d\n", e->op); abort();
        }
        e->lits = (int)litpool.size();
        litpool.insert(litpool.end(), r.begin(), r.end());
    }
    return &litpool[root->lits];
}

int Solver::check(const std::vector<int>& as, i64 budget) {
    auto t0 = std::chrono::steady_clock::now();
    Minisat::vec<Minisat::Lit> v;
    for (int l : as) { if (l == TRUE_) continue; v.push(L(l)); }
    if (budget >= 0) s->setConfBudget(budget); else s->budgetOff();
    Minisat::lbool r = s->solveLimited(v);
    tSolve += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    ++nQueries;
    using namespace Minisat;
    if (r == l_True) { ++nSat; return 1; }
    if (r == l_False) { ++nUnsat; return 0; }
    ++nUnknown; return -1;
}
void Solver::model(std::vector<u8>& m) {
    using namespace Minisat;
    for (u32 id : varList) {
        if (id >= (1u << 24)) continue;
        int base = varBase[id]; u8 b = 0;
        for (int i = 0; i < 8; ++i) { int l = litpool[base + i]; if (s->modelValue(L(l)) == l_True) b |= 1 << i; }
        if (id >= m.size()) m.resize(id + 1, 0);
        m[id] = b;
    }
}
