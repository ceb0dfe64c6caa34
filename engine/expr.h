// Hash-consed bit-vector expressions (width 1..64) with simplification,
// known-bits analysis, concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <z3.h>

enum Kind : uint8_t {
    K_CONST, K_VAR,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_SLT,
    K_ITE, K_CONCAT, K_EXTRACT, K_SEXT
};

struct Expr {
    Kind k;
    uint8_t w;
    uint8_t leafConst;      // 0: no; else ITE tree with constant leaves (1..255 leaves, saturating)
    uint32_t id;
    const Expr *a, *b, *c;
    uint64_t val;           // CONST value, VAR id, EXTRACT offset
    uint64_t kz, ko;        // known zero / known one bits
    const std::vector<uint32_t> *vars;
    mutable uint32_t epoch;
    mutable uint64_t ev;
    mutable Z3_ast z3bv, z3bool;
};
typedef const Expr *E;

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, int w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

class ExprPool {
    struct Key { Kind k; uint8_t w; uint64_t val; E a, b, c;
        bool operator==(const Key &o) const { return k == o.k && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; } };
    struct KeyHash { size_t operator()(const Key &x) const {
        uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
        h = (h ^ x.val) * 0xff51afd7ed558ccdull; h ^= h >> 29;
        h = (h ^ (uint64_t)x.a) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
        h = (h ^ (uint64_t)x.b) * 0xff51afd7ed558ccdull; h ^= h >> 30;
        h = (h ^ (uint64_t)x.c) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
        return h; } };
    std::unordered_map<Key, E, KeyHash> tab;
    std::unordered_map<std::string, const std::vector<uint32_t> *> varsets;
    uint32_t nextId = 1;
    const std::vector<uint32_t> *emptyVars;
public:
    std::vector<std::string> varNames;
    std::vector<uint8_t> varWidth;
    ExprPool() { emptyVars = internVars({}); }
    size_t size() const { return tab.size(); }
    const std::vector<uint32_t> *internVars(const std::vector<uint32_t> &v) {
        std::string key((const char *)v.data(), v.size() * 4);
        auto it = varsets.find(key);
        if (it != varsets.end()) return it->second;
        auto *n = new std::vector<uint32_t>(v);
        varsets[key] = n;
        return n;
    }
    const std::vector<uint32_t> *unionVars(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
        if (x == y || y->empty()) return x;
        if (x->empty()) return y;
        std::vector<uint32_t> r;
        std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
        if (r.size() == x->size()) return x;
        if (r.size() == y->size()) return y;
        return internVars(r);
    }
    E raw(Kind k, int w, uint64_t val, E a, E b, E c) {
        Key key{k, (uint8_t)w, val, a, b, c};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr *e = new Expr();
        e->k = k; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c;
        e->id = nextId++;
        e->epoch = 0; e->z3bv = e->z3bool = nullptr;
        e->vars = emptyVars;
        if (k == K_VAR) e->vars = internVars({(uint32_t)val});
        if (a) e->vars = unionVars(e->vars, a->vars);
        if (b) e->vars = unionVars(e->vars, b->vars);
        if (c) e->vars = unionVars(e->vars, c->vars);
        e->leafConst = 0;
        if (k == K_ITE) {
            int l = b->k == K_CONST ? 1 : b->leafConst, r = c->k == K_CONST ? 1 : c->leafConst;
            if (l && r) e->leafConst = std::min(255, l + r);
        }
        known(e);
        tab[key] = e;
        return e;
    }
    void known(Expr *e) {
        uint64_t m = maskw(e->w), kz = 0, ko = 0;
        E a = e->a, b = e->b;
        switch (e->k) {
        case K_CONST: kz = ~e->val & m; ko = e->val; break;
        case K_AND: kz = a->kz | b->kz; ko = a->ko & b->ko; break;
        case K_OR: kz = a->kz & b->kz; ko = a->ko | b->ko; break;
        case K_XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
        case K_ADD: addKnown(a->kz, a->ko, b->kz, b->ko, 0, m, kz, ko); break;
        case K_SUB: addKnown(a->kz, a->ko, b->ko, b->kz, 1, m, kz, ko); break;
        case K_MUL: {
            int tz = ctz(a, m) + ctz(b, m); if (tz > e->w) tz = e->w;
            kz = maskw(tz);
            int la = bitlen(~a->kz & m), lb = bitlen(~b->kz & m);
            if (la + lb < e->w) kz |= m & ~maskw(la + lb);
            if (tz == 0) kz &= ~0ull;
            break; }
        case K_UDIV: { int la = bitlen(~a->kz & m); kz = m & ~maskw(la); break; }
        case K_UREM: { int la = std::min(bitlen(~a->kz & m), bitlen(~b->kz & m)); kz = m & ~maskw(la); break; }
        case K_LSHR: { int la = bitlen(~a->kz & m); kz = m & ~maskw(la); break; }
        case K_ITE: kz = b->kz & e->c->kz; ko = b->ko & e->c->ko; break;
        case K_CONCAT: kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko; break;
        case K_EXTRACT: kz = (a->kz >> e->val) & m; ko = (a->ko >> e->val) & m; break;
        case K_SEXT: { uint64_t hi = m & ~maskw(a->w), sb = 1ull << (a->w - 1);
            kz = a->kz | ((a->kz & sb) ? hi : 0); ko = a->ko | ((a->ko & sb) ? hi : 0); break; }
        default: break;
        }
        e->kz = kz & m; e->ko = ko & m;
    }
    static int bitlen(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
    static int ctz(E e, uint64_t m) { uint64_t nz = ~e->kz & m; return nz ? __builtin_ctzll(nz) : e->w; }
    static void addKnown(uint64_t kza, uint64_t koa, uint64_t kzb, uint64_t kob, int cin, uint64_t m, uint64_t &kz, uint64_t &ko) {
        uint64_t psz = ((~kza & m) + (~kzb & m) + cin) & m, pso = (koa + kob + cin) & m;
        uint64_t ckz = ~(psz ^ kza ^ kzb), cko = pso ^ koa ^ kob;
        uint64_t kn = (kza | koa) & (kzb | kob) & (ckz | cko) & m;
        kz = ~psz & kn; ko = pso & kn;
    }

    E C(int w, uint64_t v) { return raw(K_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
    E T() { return C(1, 1); }
    E F() { return C(1, 0); }
    E fold(E e) { // all bits known -> constant
        if (e->k != K_CONST && (e->kz | e->ko) == maskw(e->w)) return C(e->w, e->ko);
        return e;
    }
    static bool isC(E e) { return e->k == K_CONST; }

    // ---- structure -----------------------------------------------------
    E extract(E x, int off, int w) {
        if (off == 0 && w == x->w) return x;
        uint64_t m = maskw(w);
        if ((((x->kz | x->ko) >> off) & m) == m) return C(w, (x->ko >> off) & m);
        switch (x->k) {
        case K_EXTRACT: return extract(x->a, off + (int)x->val, w);
        case K_CONCAT:
            if (off + w <= x->b->w) return extract(x->b, off, w);
            if (off >= x->b->w) return extract(x->a, off - x->b->w, w);
            return concat(extract(x->a, 0, off + w - x->b->w), extract(x->b, off, x->b->w - off));
        case K_SEXT:
            if (off + w <= x->a->w) return extract(x->a, off, w);
            if (off >= x->a->w - 1) return sext(extract(x->a, x->a->w - 1, 1), w);
            return sext(extract(x->a, off, x->a->w - off), w);
        case K_AND: case K_OR: case K_XOR:
            return bin(x->k, extract(x->a, off, w), extract(x->b, off, w));
        case K_ADD: case K_SUB: case K_MUL:
            if (off == 0) return bin(x->k, extract(x->a, 0, w), extract(x->b, 0, w));
            break;
        case K_ITE:
            if (x->leafConst || isC(x->b) || isC(x->c)) {
                if (x->leafConst <= 64) return ite(x->a, extract(x->b, off, w), extract(x->c, off, w));
            }
            break;
        default: break;
        }
        return fold(raw(K_EXTRACT, w, off, x, nullptr, nullptr));
    }
    bool tryMerge(E hi, E lo, E &out) {
        if (isC(hi) && isC(lo)) { out = C(hi->w + lo->w, (hi->val << lo->w) | lo->val); return true; }
        E xh = hi, xl = lo; uint64_t oh = 0, ol = 0;
        if (hi->k == K_EXTRACT) { xh = hi->a; oh = hi->val; }
        if (lo->k == K_EXTRACT) { xl = lo->a; ol = lo->val; }
        if (xh == xl && hi->k == K_EXTRACT && oh == ol + lo->w) { out = extract(xh, ol, hi->w + lo->w); return true; }
        if (hi->k == K_EXTRACT && oh >= lo->w && (lo->k == K_ADD || lo->k == K_SUB || lo->k == K_MUL || lo->k == K_ITE) &&
            (xh->k == lo->k) && extract(xh, oh - lo->w, lo->w) == lo) { out = extract(xh, oh - lo->w, hi->w + lo->w); return true; }
        return false;
    }
    E concat(E hi, E lo) {
        if (hi->k == K_CONCAT) return concat(hi->a, concat(hi->b, lo));
        E m;
        if (lo->k == K_CONCAT) {
            if (tryMerge(hi, lo->a, m)) return concat(m, lo->b);
        } else if (tryMerge(hi, lo, m)) return m;
        return fold(raw(K_CONCAT, hi->w + lo->w, 0, hi, lo, nullptr));
    }
    E zext(E x, int w) {
        if (w == x->w) return x;
        if (x->leafConst && x->leafConst <= 16) return ite(x->a, zext(x->b, w), zext(x->c, w));
        return concat(C(w - x->w, 0), x);
    }
    E sext(E x, int w) {
        if (w == x->w) return x;
        uint64_t sb = 1ull << (x->w - 1);
        if (x->kz & sb) return zext(x, w);
        if (x->ko & sb) return concat(C(w - x->w, ~0ull), x);
        if (x->k == K_SEXT) return sext(x->a, w);
        if (x->leafConst && x->leafConst <= 16) return ite(x->a, sext(x->b, w), sext(x->c, w));
        return fold(raw(K_SEXT, w, 0, x, nullptr, nullptr));
    }
    E trunc(E x, int w) { return extract(x, 0, w); }
    E not1(E x) { return bin(K_XOR, x, C(x->w, ~0ull)); }

    // combine two values of which at every bit position at most one may be nonzero
    E disjoint(E a, E b, bool &ok) {
        uint64_t m = maskw(a->w), na = ~a->kz & m, nb = ~b->kz & m;
        ok = false;
        if (na & nb) return nullptr;
        int runs = 0, last = -1;
        for (int i = 0; i < a->w; i++) {
            int o = ((na >> i) & 1) ? 1 : ((nb >> i) & 1) ? 2 : 0;
            if (o != last) { runs++; last = o; }
        }
        if (runs > 9) return nullptr;
        E r = nullptr;
        for (int i = 0; i < a->w;) {
            int o = ((na >> i) & 1) ? 1 : ((nb >> i) & 1) ? 2 : 0, j = i;
            while (j < a->w && (((na >> j) & 1) ? 1 : ((nb >> j) & 1) ? 2 : 0) == o) j++;
            E p = o == 1 ? extract(a, i, j - i) : o == 2 ? extract(b, i, j - i) : C(j - i, 0);
            r = r ? concat(p, r) : p;
            i = j;
        }
        ok = true;
        return r;
    }
    static int runsOf(uint64_t v, int w) {
        int r = 1;
        for (int i = 1; i < w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) r++;
        return r;
    }
    E andConst(E x, uint64_t c) {
        if (runsOf(c, x->w) > 5) return nullptr;
        E r = nullptr;
        for (int i = 0; i < x->w;) {
            int bit = (c >> i) & 1, j = i;
            while (j < x->w && (int)((c >> j) & 1) == bit) j++;
            E p = bit ? extract(x, i, j - i) : C(j - i, 0);
            r = r ? concat(p, r) : p;
            i = j;
        }
        return r;
    }
    E orConst(E x, uint64_t c) {
        if (runsOf(c, x->w) > 9) return nullptr;
        E r = nullptr;
        for (int i = 0; i < x->w;) {
            int bit = (c >> i) & 1, j = i;
            while (j < x->w && (int)((c >> j) & 1) == bit) j++;
            E p = bit ? C(j - i, ~0ull) : extract(x, i, j - i);
            r = r ? concat(p, r) : p;
            i = j;
        }
        return r;
    }

    static bool foldBin(Kind k, int w, uint64_t a, uint64_t b, uint64_t &r) {
        uint64_t m = maskw(w);
        switch (k) {
        case K_ADD: r = a + b; break;
        case K_SUB: r = a - b; break;
        case K_MUL: r = a * b; break;
        case K_UDIV: r = b ? a / b : m; break;
        case K_UREM: r = b ? a % b : a; break;
        case K_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w);
            if (y == 0) r = x < 0 ? 1 : m; else if (y == -1) r = 0 - (uint64_t)x; else r = x / y; break; }
        case K_SREM: { int64_t x = sextw(a, w), y = sextw(b, w);
            if (y == 0) r = a; else if (y == -1) r = 0; else r = x % y; break; }
        case K_AND: r = a & b; break;
        case K_OR: r = a | b; break;
        case K_XOR: r = a ^ b; break;
        case K_SHL: r = b >= (uint64_t)w ? 0 : a << b; break;
        case K_LSHR: r = b >= (uint64_t)w ? 0 : (a & m) >> b; break;
        case K_ASHR: r = (uint64_t)(sextw(a, w) >> (b >= (uint64_t)w ? w - 1 : b)); break;
        case K_EQ: r = a == b; return true;
        case K_ULT: r = a < b; return true;
        case K_SLT: r = sextw(a, w) < sextw(b, w); return true;
        default: return false;
        }
        r &= m;
        return true;
    }

    E bin(Kind k, E a, E b) {
        int w = a->w;
        uint64_t m = maskw(w), r;
        bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
        if (isC(a) && isC(b)) {
            foldBin(k, w, a->val, b->val, r);
            return C((k == K_EQ || k == K_ULT || k == K_SLT) ? 1 : w, r);
        }
        if (comm) {
            if (isC(a)) std::swap(a, b);
            else if (!isC(b) && a->id > b->id) std::swap(a, b);
        }
        // push into small constant-leaf ITE trees
        if (isC(b) && a->k == K_ITE && a->leafConst && a->leafConst <= 16)
            return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        if (isC(a) && b->k == K_ITE && b->leafConst && b->leafConst <= 16)
            return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        switch (k) {
        case K_ADD: {
            if (isC(b)) {
                if (b->val == 0) return a;
                if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, C(w, a->b->val + b->val));
                if (a->k == K_SUB && isC(a->a)) return bin(K_SUB, C(w, a->a->val + b->val), a->b);
                uint64_t d = (0 - b->val) & m;
                if ((d & ~a->ko) == 0) return bin(K_AND, a, C(w, ~d));
            }
            if (a->k == K_SUB && a->b == b) return a->a;
            if (b->k == K_SUB && b->b == a) return b->a;
            if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
            if (b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
            if (w == 1) return bin(K_XOR, a, b);
            bool ok; E d = disjoint(a, b, ok);
            if (ok) return d;
            break; }
        case K_SUB:
            if (a == b) return C(w, 0);
            if (isC(b)) return bin(K_ADD, a, C(w, 0 - b->val));
            if (a->k == K_ADD && a->a == b) return a->b;
            if (a->k == K_ADD && a->b == b) return a->a;
            if (a->k == K_ADD && isC(a->b)) return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
            if (b->k == K_ADD && isC(b->b)) return bin(K_ADD, bin(K_SUB, a, b->a), C(w, 0 - b->b->val));
            if (b->k == K_SUB && b->a == a) return b->b;
            if (isC(a) && a->val == 0 && b->k == K_SUB) return bin(K_SUB, b->b, b->a);
            break;
        case K_MUL:
            if (isC(b)) {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if ((b->val & (b->val - 1)) == 0) return bin(K_SHL, a, C(w, __builtin_ctzll(b->val)));
                if (b->val == m) return bin(K_SUB, C(w, 0), a);
            }
            { int l = bitlen(~a->kz & m) + bitlen(~b->kz & m), n = (l + 7) & ~7;
              if (n < w) return zext(bin(K_MUL, trunc(a, n), trunc(b, n)), w); }
            break;
        case K_AND:
            if (a == b) return a;
            if (isC(b)) {
                if (b->val == 0) return b;
                if (b->val == m) return a;
                uint64_t c = b->val;
                if ((~a->kz & m & ~c) == 0) return a;      // mask removes nothing
                if (E x = andConst(a, c)) return fold(x);
                if (a->k == K_AND && isC(a->b)) return bin(K_AND, a->a, C(w, a->b->val & c));
            }
            if (w == 1 && ((a->k == K_XOR && a->a == b && isC(a->b)) || (b->k == K_XOR && b->a == a && isC(b->b)))) return F();
            if ((~a->kz & ~b->kz & m) == 0) return C(w, 0);
            break;
        case K_OR: {
            if (a == b) return a;
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val == m) return b;
                if (E x = orConst(a, b->val)) return fold(x);
            }
            if (w == 1 && ((a->k == K_XOR && a->a == b && isC(a->b)) || (b->k == K_XOR && b->a == a && isC(b->b)))) return T();
            bool ok; E d = disjoint(a, b, ok);
            if (ok) return d;
            break; }
        case K_XOR: {
            if (a == b) return C(w, 0);
            if (isC(b)) {
                if (b->val == 0) return a;
                if (a->k == K_XOR && isC(a->b)) return bin(K_XOR, a->a, C(w, a->b->val ^ b->val));
            }
            bool ok; E d = disjoint(a, b, ok);
            if (ok) return d;
            break; }
        case K_SHL:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= (uint64_t)w) return C(w, 0);
                return concat(extract(a, 0, w - b->val), C(b->val, 0));
            }
            break;
        case K_LSHR:
            if (isC(b)) {
                if (b->val == 0) return a;
                if (b->val >= (uint64_t)w) return C(w, 0);
                return concat(C(b->val, 0), extract(a, b->val, w - b->val));
            }
            break;
        case K_ASHR:
            if (isC(b)) {
                if (b->val == 0) return a;
                uint64_t s = b->val >= (uint64_t)w ? w - 1 : b->val;
                return sext(extract(a, s, w - s), w);
            }
            if (a->kz >> (w - 1)) return bin(K_LSHR, a, b);
            break;
        case K_UDIV:
            if (isC(b)) {
                if (b->val == 1) return a;
                if (b->val && (b->val & (b->val - 1)) == 0) return bin(K_LSHR, a, C(w, __builtin_ctzll(b->val)));
            }
            { // narrow
                int l = std::max(bitlen(~a->kz & m), bitlen(~b->kz & m));
                if (l < w && l > 0) { int n = l <= 8 ? 8 : l <= 16 ? 16 : l <= 32 ? 32 : w;
                    if (n < w && b->ko) return zext(bin(K_UDIV, trunc(a, n), trunc(b, n)), w); }
            }
            break;
        case K_UREM:
            if (isC(b)) {
                if (b->val == 1) return C(w, 0);
                if (b->val && (b->val & (b->val - 1)) == 0) return bin(K_AND, a, C(w, b->val - 1));
            }
            {
                int l = std::max(bitlen(~a->kz & m), bitlen(~b->kz & m));
                if (l < w && l > 0) { int n = l <= 8 ? 8 : l <= 16 ? 16 : l <= 32 ? 32 : w;
                    if (n < w && b->ko) return zext(bin(K_UREM, trunc(a, n), trunc(b, n)), w); }
            }
            break;
        case K_SDIV:
            if (isC(b) && b->val == 1) return a;
            if ((a->kz >> (w - 1)) && (b->kz >> (w - 1))) return bin(K_UDIV, a, b);
            break;
        case K_SREM:
            if (isC(b) && b->val == 1) return C(w, 0);
            if ((a->kz >> (w - 1)) && (b->kz >> (w - 1))) return bin(K_UREM, a, b);
            break;
        case K_EQ: {
            if (a == b) return T();
            if ((a->kz & b->ko) || (a->ko & b->kz)) return F();
            if (w == 1) {
                if (isC(b)) return b->val ? a : not1(a);
                return not1(bin(K_XOR, a, b));
            }
            if (isC(b)) {
                uint64_t c = b->val;
                switch (a->k) {
                case K_CONCAT: return bin(K_AND, bin(K_EQ, a->a, C(a->a->w, c >> a->b->w)), bin(K_EQ, a->b, C(a->b->w, c)));
                case K_ADD: if (isC(a->b)) return bin(K_EQ, a->a, C(w, c - a->b->val));
                    break;
                case K_SUB: if (isC(a->a)) return bin(K_EQ, a->b, C(w, a->a->val - c));
                    if (c == 0) return bin(K_EQ, a->a, a->b);
                    break;
                case K_XOR: if (isC(a->b)) return bin(K_EQ, a->a, C(w, c ^ a->b->val));
                    if (c == 0) return bin(K_EQ, a->a, a->b);
                    break;
                case K_SEXT: { uint64_t hi = c >> (a->a->w - 1), hm = maskw(w - a->a->w + 1);
                    if (hi == 0 || hi == hm) return bin(K_EQ, a->a, C(a->a->w, c));
                    return F(); }
                case K_OR: if (c == 0) return bin(K_AND, bin(K_EQ, a->a, b), bin(K_EQ, a->b, b));
                    break;
                case K_ITE:
                    if (isC(a->b)) { E e2 = bin(K_EQ, a->c, b);
                        return a->b->val == c ? bin(K_OR, a->a, e2) : bin(K_AND, not1(a->a), e2); }
                    if (isC(a->c)) { E e2 = bin(K_EQ, a->b, b);
                        return a->c->val == c ? bin(K_OR, not1(a->a), e2) : bin(K_AND, a->a, e2); }
                    break;
                default: break;
                }
            } else {
                if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w)
                    return bin(K_AND, bin(K_EQ, a->a, b->a), bin(K_EQ, a->b, b->b));
                if (a->k == K_CONCAT && isC(a->a) && b->k != K_CONCAT) return eqSplit(a, b);
                if (b->k == K_CONCAT && isC(b->a) && a->k != K_CONCAT) return eqSplit(b, a);
                if (a->k == K_CONCAT && b->k == K_CONCAT) {
                    int lw = std::min(a->b->w, b->b->w);
                    return bin(K_AND, bin(K_EQ, extract(a, lw, w - lw), extract(b, lw, w - lw)), bin(K_EQ, extract(a, 0, lw), extract(b, 0, lw)));
                }
                if (a->k == K_CONCAT && dist(b)) return eqSplit(a, b);
                if (b->k == K_CONCAT && dist(a)) return eqSplit(b, a);
                if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_EQ, a->a, b->a);
                if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return bin(K_EQ, a->a, b->a);
                if (a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b))
                    return bin(K_EQ, a->a, bin(K_ADD, b->a, C(w, b->b->val - a->b->val)));
            }
            break; }
        case K_ULT: {
            if (a == b) return F();
            uint64_t amin = a->ko, amax = ~a->kz & m, bmin = b->ko, bmax = ~b->kz & m;
            if (amax < bmin) return T();
            if (amin >= bmax) return F();
            if (w == 1) return bin(K_AND, not1(a), b);
            if (isC(b) && b->val == 1) return bin(K_EQ, a, C(w, 0));
            if (isC(a) && a->val == 0) return not1(bin(K_EQ, b, C(w, 0)));
            if (isC(b) && b->val == m) return not1(bin(K_EQ, a, b));
            if (isC(a) && a->val == m - 1) return bin(K_EQ, b, C(w, m));
            { // drop common known high bits
                uint64_t same = (a->kz & b->kz) | (a->ko & b->ko);
                int h = 0;
                while (h < w && ((same >> (w - 1 - h)) & 1)) h++;
                if (h > 0 && h < w) return bin(K_ULT, extract(a, 0, w - h), extract(b, 0, w - h));
            }
            break; }
        case K_SLT: {
            if (a == b) return F();
            uint64_t sb = 1ull << (w - 1);
            if ((a->kz & sb) && (b->kz & sb)) return bin(K_ULT, a, b);
            if ((a->ko & sb) && (b->ko & sb)) return bin(K_ULT, a, b);
            if ((a->ko & sb) && (b->kz & sb)) return T();
            if ((a->kz & sb) && (b->ko & sb)) return F();
            if (isC(b) && b->val == 0) return extract(a, w - 1, 1);
            if (isC(a) && a->val == m) return not1(extract(b, w - 1, 1));
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_SLT, a->a, b->a);
            if (a->k == K_SEXT && isC(b)) { int n = a->a->w; int64_t c = sextw(b->val, w), lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1;
                if (c > hi) return T(); if (c <= lo) return F(); return bin(K_SLT, a->a, C(n, c)); }
            if (b->k == K_SEXT && isC(a)) { int n = b->a->w; int64_t c = sextw(a->val, w), lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1;
                if (c < lo) return T(); if (c >= hi) return F(); return bin(K_SLT, C(n, c), b->a); }
            break; }
        default: break;
        }
        int rw = (k == K_EQ || k == K_ULT || k == K_SLT) ? 1 : w;
        return fold(raw(k, rw, 0, a, b, nullptr));
    }
    static bool dist(E x) { return x->k == K_AND || x->k == K_OR || x->k == K_XOR || x->k == K_SEXT || (x->k == K_ITE && (isC(x->b) || isC(x->c))); }
    E eqSplit(E cc, E x) {  // cc is a CONCAT
        int lw = cc->b->w, w = cc->w;
        return bin(K_AND, bin(K_EQ, extract(x, lw, w - lw), cc->a), bin(K_EQ, cc->b, extract(x, 0, lw)));
    }
    E ite(E c, E a, E b) {
        if (isC(c)) return c->val ? a : b;
        if (a == b) return a;
        if (c->k == K_XOR && isC(c->b)) return ite(c->a, b, a);
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->val ? c : not1(c);
            if (isC(a)) return a->val ? bin(K_OR, c, b) : bin(K_AND, not1(c), b);
            if (isC(b)) return b->val ? bin(K_OR, not1(c), a) : bin(K_AND, c, a);
        }
        if (a->k == K_ITE && a->a == c) a = a->b;
        if (b->k == K_ITE && b->a == c) b = b->c;
        if (a == b) return a;
        return fold(raw(K_ITE, a->w, 0, c, a, b));
    }

    // ---- evaluation under an assignment ---------------------------------
    uint32_t curEpoch = 0;
    const uint64_t *curModel = nullptr; size_t curModelN = 0;
    void beginEval(const std::vector<uint64_t> &m) { curEpoch++; curModel = m.data(); curModelN = m.size(); }
    uint64_t eval(E e) {
        if (e->k == K_CONST) return e->val;
        if (e->epoch == curEpoch) return e->ev;
        uint64_t r = 0;
        switch (e->k) {
        case K_VAR: r = e->val < curModelN ? curModel[e->val] & maskw(e->w) : 0; break;
        case K_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
        case K_CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
        case K_EXTRACT: r = (eval(e->a) >> e->val) & maskw(e->w); break;
        case K_SEXT: r = (uint64_t)sextw(eval(e->a), e->a->w) & maskw(e->w); break;
        default: foldBin(e->k, e->a->w, eval(e->a), eval(e->b), r); break;
        }
        e->epoch = curEpoch; e->ev = r;
        return r;
    }

    // ---- Z3 ---------------------------------------------------------------
    Z3_context z3 = nullptr;
    std::vector<Z3_ast> z3vars;
    void initZ3() {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        z3 = Z3_mk_context_rc(cfg);
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(z3, a); return a; }
    Z3_ast zvar(E e) {
        uint32_t id = e->val;
        if (z3vars.size() <= id) z3vars.resize(id + 1, nullptr);
        if (!z3vars[id]) {
            char nm[32]; snprintf(nm, sizeof nm, "v%u", id);
            z3vars[id] = keep(Z3_mk_const(z3, Z3_mk_string_symbol(z3, nm), Z3_mk_bv_sort(z3, e->w)));
        }
        return z3vars[id];
    }
    Z3_ast bv(E e) {
        if (e->z3bv) return e->z3bv;
        Z3_ast r;
        switch (e->k) {
        case K_CONST: r = Z3_mk_unsigned_int64(z3, e->val, Z3_mk_bv_sort(z3, e->w)); break;
        case K_VAR: r = zvar(e); break;
        case K_ADD: r = Z3_mk_bvadd(z3, bv(e->a), bv(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(z3, bv(e->a), bv(e->b)); break;
        case K_MUL: r = Z3_mk_bvmul(z3, bv(e->a), bv(e->b)); break;
        case K_UDIV: r = Z3_mk_bvudiv(z3, bv(e->a), bv(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(z3, bv(e->a), bv(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(z3, bv(e->a), bv(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(z3, bv(e->a), bv(e->b)); break;
        case K_AND: case K_OR: case K_XOR:
            if (e->w == 1) { r = Z3_mk_ite(z3, bl(e), one1(), zero1()); break; }
            r = e->k == K_AND ? Z3_mk_bvand(z3, bv(e->a), bv(e->b)) : e->k == K_OR ? Z3_mk_bvor(z3, bv(e->a), bv(e->b)) : Z3_mk_bvxor(z3, bv(e->a), bv(e->b));
            break;
        case K_SHL: r = Z3_mk_bvshl(z3, bv(e->a), bv(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(z3, bv(e->a), bv(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(z3, bv(e->a), bv(e->b)); break;
        case K_EQ: case K_ULT: case K_SLT: r = Z3_mk_ite(z3, bl(e), one1(), zero1()); break;
        case K_ITE: r = Z3_mk_ite(z3, bl(e->a), bv(e->b), bv(e->c)); break;
        case K_CONCAT: r = Z3_mk_concat(z3, bv(e->a), bv(e->b)); break;
        case K_EXTRACT: r = Z3_mk_extract(z3, e->val + e->w - 1, e->val, bv(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, bv(e->a)); break;
        default: abort();
        }
        return e->z3bv = keep(r);
    }
    Z3_ast one1() { static Z3_ast x = nullptr; if (!x) x = keep(Z3_mk_unsigned_int64(z3, 1, Z3_mk_bv_sort(z3, 1))); return x; }
    Z3_ast zero1() { static Z3_ast x = nullptr; if (!x) x = keep(Z3_mk_unsigned_int64(z3, 0, Z3_mk_bv_sort(z3, 1))); return x; }
    Z3_ast bl(E e) {
        if (e->z3bool) return e->z3bool;
        Z3_ast r, ar[2];
        switch (e->k) {
        case K_CONST: r = e->val ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
        case K_EQ: r = Z3_mk_eq(z3, bv(e->a), bv(e->b)); break;
        case K_ULT: r = Z3_mk_bvult(z3, bv(e->a), bv(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(z3, bv(e->a), bv(e->b)); break;
        case K_AND: ar[0] = bl(e->a); ar[1] = bl(e->b); r = Z3_mk_and(z3, 2, ar); break;
        case K_OR: ar[0] = bl(e->a); ar[1] = bl(e->b); r = Z3_mk_or(z3, 2, ar); break;
        case K_XOR: if (isC(e->b)) { r = e->b->val ? Z3_mk_not(z3, bl(e->a)) : bl(e->a); } else r = Z3_mk_xor(z3, bl(e->a), bl(e->b)); break;
        case K_ITE: r = Z3_mk_ite(z3, bl(e->a), bl(e->b), bl(e->c)); break;
        default: r = Z3_mk_eq(z3, bv(e), one1()); break;
        }
        return e->z3bool = keep(r);
    }
};
