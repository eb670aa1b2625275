// Hash-consed bit-vector expressions with constant folding, concrete
// evaluation under an assignment, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <z3.h>

enum Op : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sgn(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t) v;
    uint64_t m = 1ULL << (w - 1);
    return (int64_t) ((v ^ m) - m);
}

struct Expr {
    Op op;
    uint8_t w;        // width in bits, 1..64
    uint32_t aux;     // EXTRACT: offset, VAR: number
    Expr *a, *b, *c;
    uint64_t k;       // constant
    uint32_t id;
    uint32_t stamp;   // evaluation epoch
    uint64_t val;     // value in epoch
    Z3_ast z3;        // translation (0: not yet)
    std::vector<uint32_t>* vars; // variables (sorted); shared
};

struct ExprMgr {
    struct Key {
        Op op; uint8_t w; uint32_t aux; Expr *a, *b, *c; uint64_t k;
        bool operator==(const Key& o) const {
            return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && k == o.k;
        }
    };
    struct KH {
        size_t operator()(const Key& k) const {
            uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.w * 31 + k.aux * 0x85EBCA6BULL;
            h ^= (uint64_t)(uintptr_t) k.a * 0xff51afd7ed558ccdULL; h = (h << 13) | (h >> 51);
            h ^= (uint64_t)(uintptr_t) k.b * 0xc4ceb9fe1a85ec53ULL; h = (h << 17) | (h >> 47);
            h ^= (uint64_t)(uintptr_t) k.c * 0x94d049bb133111ebULL; h = (h << 19) | (h >> 45);
            h ^= k.k * 0x9E3779B97F4A7C15ULL;
            return h ^ (h >> 29);
        }
    };
    std::unordered_map<Key, Expr*, KH> tab;
    std::vector<Expr*> all;
    std::vector<Expr*> varExpr;       // by variable number
    std::vector<uint64_t> model;      // current assignment by variable number
    uint32_t epoch = 1;

    Z3_context ctx = 0;

    void newEpoch() { epoch++; }

    Expr* mk(Op op, unsigned w, Expr* a = 0, Expr* b = 0, Expr* c = 0, uint32_t aux = 0, uint64_t k = 0)
    {
        Key key{op, (uint8_t) w, aux, a, b, c, k};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr* e = new Expr{op, (uint8_t) w, aux, a, b, c, k, (uint32_t) all.size(), 0, 0, 0, 0};
        all.push_back(e);
        tab[key] = e;
        return e;
    }
    Expr* cst(uint64_t v, unsigned w) { return mk(CONST, w, 0, 0, 0, 0, v & maskw(w)); }
    Expr* var(uint32_t n, unsigned w)
    {
        while (varExpr.size() <= n) varExpr.push_back(0);
        Expr* e = mk(VAR, w, 0, 0, 0, n);
        varExpr[n] = e;
        return e;
    }

    static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b)
    {
        uint64_t m = maskw(w);
        a &= m; b &= m;
        switch(op) {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? a / b : m;
        case UREM: return b ? a % b : a;
        case SDIV: {
            int64_t x = sgn(a, w), y = sgn(b, w);
            if (y == 0) return x < 0 ? 1 : m;
            if (y == -1) return (0 - (uint64_t) x) & m;
            return (uint64_t)(x / y) & m;
        }
        case SREM: {
            int64_t x = sgn(a, w), y = sgn(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (uint64_t)(x % y) & m;
        }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : a >> b;
        case ASHR: return (uint64_t)(sgn(a, w) >> (b >= w ? w - 1 : b)) & m;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sgn(a, w) < sgn(b, w);
        case SLE: return sgn(a, w) <= sgn(b, w);
        default: abort();
        }
    }

    bool isC(Expr* e) { return e->op == CONST; }

    Expr* notE(Expr* e) // width 1
    {
        if (isC(e)) return cst(!e->k, 1);
        if (e->op == XOR && isC(e->b) && e->b->k == 1) return e->a;
        return mk(XOR, 1, e, cst(1, 1));
    }

    Expr* cmp(Op op, Expr* a, Expr* b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return cst(fold(op, w, a->k, b->k), 1);
        if (a == b) return cst(op == EQ || op == ULE || op == SLE, 1);
        if (op == EQ) {
            if (isC(a)) std::swap(a, b);
            if (w == 1 && isC(b)) return b->k ? a : notE(a);
            if (isC(b)) {
                if (a->op == ZEXT) {
                    if (b->k > maskw(a->a->w)) return cst(0, 1);
                    return cmp(EQ, a->a, cst(b->k, a->a->w));
                }
                if (a->op == SEXT) {
                    uint64_t t = b->k & maskw(a->a->w);
                    if (((uint64_t) sgn(t, a->a->w) & maskw(w)) != b->k) return cst(0, 1);
                    return cmp(EQ, a->a, cst(t, a->a->w));
                }
                if (a->op == ADD && isC(a->b)) return cmp(EQ, a->a, cst(b->k - a->b->k, w));
                if (a->op == ITE && isC(a->b) && isC(a->c)) {
                    bool t = a->b->k == b->k, f = a->c->k == b->k;
                    if (t && f) return cst(1, 1);
                    if (!t && !f) return cst(0, 1);
                    return t ? a->a : notE(a->a);
                }
            }
            if ((a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) ||
                (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w)) return cmp(EQ, a->a, b->a);
            if (a > b && !isC(b)) std::swap(a, b);
            return mk(EQ, 1, a, b);
        }
        // order comparisons
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) {
            if (op == SLT) return cmp(ULT, a->a, b->a);
            if (op == SLE) return cmp(ULE, a->a, b->a);
            return cmp(op, a->a, b->a);
        }
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w && (op == SLT || op == SLE))
            return cmp(op, a->a, b->a);
        if (a->op == ZEXT && isC(b)) {
            uint64_t mx = maskw(a->a->w);
            bool neg = sgn(b->k, w) < 0;
            if (op == SLT || op == SLE) {
                if (neg) return cst(0, 1);
                if (b->k > mx) return cst(1, 1);
                return cmp(op == SLT ? ULT : ULE, a->a, cst(b->k, a->a->w));
            }
            if (b->k > mx) return cst(1, 1);
            return cmp(op, a->a, cst(b->k, a->a->w));
        }
        if (b->op == ZEXT && isC(a)) {
            uint64_t mx = maskw(b->a->w);
            bool neg = sgn(a->k, w) < 0;
            if (op == SLT || op == SLE) {
                if (neg) return cst(1, 1);
                if (a->k > mx) return cst(0, 1);
                return cmp(op == SLT ? ULT : ULE, cst(a->k, b->a->w), b->a);
            }
            if (a->k > mx) return cst(0, 1);
            return cmp(op, cst(a->k, b->a->w), b->a);
        }
        if (op == ULT && isC(b) && b->k == 0) return cst(0, 1);
        if (op == ULE && isC(a) && a->k == 0) return cst(1, 1);
        if (op == ULE && isC(b) && b->k == maskw(w)) return cst(1, 1);
        return mk(op, 1, a, b);
    }

    Expr* bin(Op op, Expr* a, Expr* b)
    {
        unsigned w = a->w;
        if (op >= EQ && op <= SLE) return cmp(op, a, b);
        if (isC(a) && isC(b)) return cst(fold(op, w, a->k, b->k), w);
        bool comm = (op == ADD || op == MUL || op == AND || op == OR || op == XOR);
        if (comm && isC(a)) std::swap(a, b);
        uint64_t m = maskw(w);
        if (isC(b)) {
            uint64_t k = b->k;
            switch(op) {
            case ADD: case SUB: case XOR: case OR: case SHL: case LSHR: case ASHR:
                if (k == 0) return a;
                break;
            default: break;
            }
            if (op == SUB) return bin(ADD, a, cst(0 - k, w));
            if (op == ADD && a->op == ADD && isC(a->b)) return bin(ADD, a->a, cst(a->b->k + k, w));
            if (op == MUL && k == 0) return b;
            if (op == MUL && k == 1) return a;
            if (op == AND && k == 0) return b;
            if (op == AND && k == m) return a;
            if (op == AND && a->op == ZEXT) {
                if ((k & maskw(a->a->w)) == maskw(a->a->w)) return a;
            }
            if (op == OR && k == m) return b;
            if (op == XOR && w == 1 && k == 1) return notE(a);
            if (op == XOR && a->op == XOR && isC(a->b)) return bin(XOR, a->a, cst(a->b->k ^ k, w));
            if ((op == UDIV || op == SDIV) && k == 1) return a;
            if ((op == SHL || op == LSHR) && k >= w) return cst(0, w);
            if (op == MUL && (k & (k-1)) == 0) return bin(SHL, a, cst(__builtin_ctzll(k), w));
            if (op == UDIV && (k & (k-1)) == 0 && k) return bin(LSHR, a, cst(__builtin_ctzll(k), w));
            if (op == UREM && (k & (k-1)) == 0 && k) return bin(AND, a, cst(k - 1, w));
            if (op == LSHR && a->op == ZEXT) {
                unsigned iw = a->a->w;
                if (k >= iw) return cst(0, w);
                return ext(ZEXT, bin(LSHR, a->a, cst(k, iw)), w);
            }
        }
        if (a == b) {
            if (op == SUB || op == XOR) return cst(0, w);
            if (op == AND || op == OR) return a;
        }
        if (isC(a) && a->k == 0 && (op == UDIV || op == SHL || op == LSHR || op == ASHR || op == UREM)) return a;
        if (comm && !isC(b) && a > b) std::swap(a, b);
        return mk(op, w, a, b);
    }

    Expr* ext(Op op, Expr* a, unsigned w) // ZEXT/SEXT to width w
    {
        if (a->w == w) return a;
        if (isC(a)) return cst(op == ZEXT ? a->k : (uint64_t) sgn(a->k, a->w), w);
        if (op == ZEXT && a->op == ZEXT) return ext(ZEXT, a->a, w);
        if (op == SEXT && a->op == SEXT) return ext(SEXT, a->a, w);
        if (op == SEXT && a->op == ZEXT) return ext(ZEXT, a->a, w);
        return mk(op, w, a);
    }
    Expr* extract(Expr* a, unsigned off, unsigned w)
    {
        if (off == 0 && w == a->w) return a;
        if (isC(a)) return cst(a->k >> off, w);
        switch(a->op) {
        case EXTRACT: return extract(a->a, a->aux + off, w);
        case ZEXT: case SEXT: {
            unsigned iw = a->a->w;
            if (off + w <= iw) return extract(a->a, off, w);
            if (a->op == ZEXT && off >= iw) return cst(0, w);
            if (off == 0) return ext(a->op, a->a, w);
            if (a->op == ZEXT) return ext(ZEXT, extract(a->a, off, iw - off), w);
            break;
        }
        case CONCAT: {
            unsigned lw = a->b->w;
            if (off + w <= lw) return extract(a->b, off, w);
            if (off >= lw) return extract(a->a, off - lw, w);
            break;
        }
        case ITE:
            if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
            break;
        case AND: case OR: case XOR:
            return bin(a->op, extract(a->a, off, w), extract(a->b, off, w));
        case ADD: case SUB: case MUL:
            if (off == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
            break;
        default: break;
        }
        return mk(EXTRACT, w, a, 0, 0, off);
    }
    Expr* concat(Expr* hi, Expr* lo)
    {
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo)) return cst((hi->k << lo->w) | lo->k, w);
        if (isC(hi) && hi->k == 0) return ext(ZEXT, lo, w);
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux)
            return extract(hi->a, lo->aux, w);
        if (hi->op == EXTRACT && hi->a == lo && hi->aux == lo->w && hi->w + lo->w == lo->w) return lo;
        return mk(CONCAT, w, hi, lo);
    }
    Expr* ite(Expr* c, Expr* a, Expr* b)
    {
        if (isC(c)) return c->k ? a : b;
        if (a == b) return a;
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->k ? c : notE(c);
            if (isC(a)) return a->k ? bin(OR, c, b) : bin(AND, notE(c), b);
            if (isC(b)) return b->k ? bin(OR, notE(c), a) : bin(AND, c, a);
        }
        if (c->op == XOR && isC(c->b) && c->w == 1) return ite(c->a, b, a);
        return mk(ITE, a->w, c, a, b);
    }

    // value under current model
    uint64_t eval(Expr* e)
    {
        if (e->op == CONST) return e->k;
        if (e->stamp == epoch) return e->val;
        uint64_t v;
        switch(e->op) {
        case VAR: v = e->aux < model.size() ? model[e->aux] : 0; break;
        case ZEXT: v = eval(e->a); break;
        case SEXT: v = (uint64_t) sgn(eval(e->a), e->a->w) & maskw(e->w); break;
        case EXTRACT: v = (eval(e->a) >> e->aux) & maskw(e->w); break;
        case CONCAT: v = (eval(e->a) << e->b->w) | eval(e->b); break;
        case ITE: v = eval(e->a) ? eval(e->b) : eval(e->c); break;
        default: v = fold(e->op, e->a->w, eval(e->a), eval(e->b));
        }
        e->stamp = epoch; e->val = v;
        return v;
    }

    const std::vector<uint32_t>& vars(Expr* e)
    {
        if (e->vars) return *e->vars;
        std::vector<uint32_t>* r = new std::vector<uint32_t>();
        if (e->op == VAR) r->push_back(e->aux);
        else {
            Expr* ch[3] = { e->a, e->b, e->c };
            for(Expr* x : ch) if (x) {
                const auto& v = vars(x);
                if (v.empty()) continue;
                if (r->empty()) { *r = v; continue; }
                std::vector<uint32_t> n;
                size_t i = 0, j = 0;
                while(i < r->size() || j < v.size()) {
                    if (j >= v.size() || (i < r->size() && (*r)[i] < v[j])) n.push_back((*r)[i++]);
                    else if (i >= r->size() || v[j] < (*r)[i]) n.push_back(v[j++]);
                    else { n.push_back(v[j]); i++; j++; }
                }
                r->swap(n);
            }
        }
        e->vars = r;
        return *r;
    }

    Z3_ast z3(Expr* e)
    {
        if (e->z3) return e->z3;
        Z3_ast r = 0;
        auto A = [&]{ return z3(e->a); };
        auto B = [&]{ return z3(e->b); };
        switch(e->op) {
        case CONST:
            if (e->w == 1) r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            else r = Z3_mk_unsigned_int64(ctx, e->k, Z3_mk_bv_sort(ctx, e->w));
            break;
        case VAR:
            r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->aux),
                            e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
            break;
        case ZEXT: case SEXT:
            if (e->a->w == 1) {
                Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
                r = Z3_mk_ite(ctx, A(), Z3_mk_unsigned_int64(ctx, e->op == ZEXT ? 1 : maskw(e->w), s),
                              Z3_mk_unsigned_int64(ctx, 0, s));
            }
            else r = e->op == ZEXT ? Z3_mk_zero_ext(ctx, e->w - e->a->w, A()) : Z3_mk_sign_ext(ctx, e->w - e->a->w, A());
            break;
        case EXTRACT:
            r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, A());
            if (e->w == 1)
                r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
            break;
        case CONCAT: r = Z3_mk_concat(ctx, asbv(e->a), asbv(e->b)); break;
        case ITE: r = Z3_mk_ite(ctx, A(), B(), z3(e->c)); break;
        case EQ: r = Z3_mk_eq(ctx, A(), B()); break;
        case ULT: r = Z3_mk_bvult(ctx, asbv(e->a), asbv(e->b)); break;
        case ULE: r = Z3_mk_bvule(ctx, asbv(e->a), asbv(e->b)); break;
        case SLT: r = Z3_mk_bvslt(ctx, asbv(e->a), asbv(e->b)); break;
        case SLE: r = Z3_mk_bvsle(ctx, asbv(e->a), asbv(e->b)); break;
        default:
            if (e->w == 1) {
                Z3_ast ab[2] = { A(), B() };
                switch(e->op) {
                case AND: case MUL: r = Z3_mk_and(ctx, 2, ab); break;
                case OR: r = Z3_mk_or(ctx, 2, ab); break;
                case XOR: case ADD: case SUB: r = Z3_mk_xor(ctx, ab[0], ab[1]); break;
                default: fprintf(stderr, "symex: bad width-1 op %d\n", e->op); abort();
                }
                break;
            }
            switch(e->op) {
            case ADD: r = Z3_mk_bvadd(ctx, A(), B()); break;
            case SUB: r = Z3_mk_bvsub(ctx, A(), B()); break;
            case MUL: r = Z3_mk_bvmul(ctx, A(), B()); break;
            case UDIV: r = Z3_mk_bvudiv(ctx, A(), B()); break;
            case SDIV: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
            case UREM: r = Z3_mk_bvurem(ctx, A(), B()); break;
            case SREM: r = Z3_mk_bvsrem(ctx, A(), B()); break;
            case AND: r = Z3_mk_bvand(ctx, A(), B()); break;
            case OR: r = Z3_mk_bvor(ctx, A(), B()); break;
            case XOR: r = Z3_mk_bvxor(ctx, A(), B()); break;
            case SHL: r = Z3_mk_bvshl(ctx, A(), B()); break;
            case LSHR: r = Z3_mk_bvlshr(ctx, A(), B()); break;
            case ASHR: r = Z3_mk_bvashr(ctx, A(), B()); break;
            default: abort();
            }
        }
        Z3_inc_ref(ctx, r);
        e->z3 = r;
        return r;
    }
    Z3_ast asbv(Expr* e)
    {
        Z3_ast r = z3(e);
        if (e->w > 1) return r;
        Z3_sort s = Z3_mk_bv_sort(ctx, 1);
        return Z3_mk_ite(ctx, r, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
    }
};
