#include "expr.h"
#include <chrono>

std::vector<VarInfo> g_vars;

// ---- arena + hash consing -------------------------------------------------
static std::vector<Expr *> slabs; static size_t slabUsed = 0; static const size_t SLAB = 4096;
static uint32_t nexprs = 0;
size_t exprCount() { return nexprs; }

static std::vector<E> table_(1 << 16, nullptr); static size_t tcount = 0;

static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static inline uint64_t hashE(Op op, unsigned w, unsigned aux, E a, E b, E c, uint64_t k) {
    uint64_t h = (uint64_t) op << 16 | w << 8 | aux;
    h = hmix(h, a ? a->id : 0); h = hmix(h, b ? b->id : 0); h = hmix(h, c ? c->id : 0); h = hmix(h, k);
    return h ^ (h >> 29);
}

struct VSHash { size_t operator()(const VarSet &v) const { uint64_t h = v.size(); for (auto x : v) h = hmix(h, x); return h; } };
static std::unordered_set<VarSet, VSHash> vsets;
static const VarSet *emptyVS = &*vsets.insert(VarSet()).first;
static const VarSet *vsIntern(VarSet &&v) { return &*vsets.insert(std::move(v)).first; }
static std::unordered_map<uint64_t, const VarSet *> vsUnionCache;
static const VarSet *vsUnion(const VarSet *a, const VarSet *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    uint64_t key = hmix((uint64_t) a, (uint64_t) b);
    auto it = vsUnionCache.find(key);
    if (it != vsUnionCache.end() && it->second->size() >= std::max(a->size(), b->size())) {
        if (std::includes(it->second->begin(), it->second->end(), a->begin(), a->end()) &&
            std::includes(it->second->begin(), it->second->end(), b->begin(), b->end()) &&
            it->second->size() <= a->size() + b->size()) return it->second;
    }
    VarSet r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    const VarSet *p = vsIntern(std::move(r));
    vsUnionCache[key] = p;
    return p;
}

static void ranges(Expr *e) {
    unsigned w = e->w; uint64_t M = mask(w);
    e->lo = 0; e->hi = M; e->pm = M;
    E a = e->a, b = e->b;
    switch (e->op) {
    case CONST: e->lo = e->hi = e->pm = e->k; return;
    case SYM: return;
    case ADD:
        if (a->hi <= M - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
        break;
    case SUB:
        if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
        break;
    case MUL:
        if (a->hi == 0 || b->hi <= M / a->hi) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; }
        { // trailing zeros add up
            int tz = (a->pm ? __builtin_ctzll(a->pm) : 63) + (b->pm ? __builtin_ctzll(b->pm) : 63);
            if (tz > 63) tz = 63;
            e->pm = M & ~mask(tz);
        }
        break;
    case UDIV: e->hi = b->lo ? a->hi / b->lo : M; e->lo = (b->lo && b->hi) ? a->lo / b->hi : 0; break;
    case UREM: if (b->lo) e->hi = std::min(a->hi, b->hi - 1); break;
    case AND: e->pm = a->pm & b->pm; e->hi = std::min(a->hi, b->hi); break;
    case OR: e->pm = a->pm | b->pm; e->lo = std::max(a->lo, b->lo); break;
    case XOR: e->pm = a->pm | b->pm; break;
    case SHL: break;
    case LSHR: e->hi = a->hi; break;
    case ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); e->pm = b->pm | e->c->pm; break;
    case CONCAT: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; e->pm = a->pm << b->w | b->pm; break;
    case EXTRACT: e->pm = (a->pm >> e->aux) & M;
        if (e->aux == 0 ? a->hi <= M : (a->hi >> e->aux) <= M) { e->lo = a->lo >> e->aux; e->hi = a->hi >> e->aux; }
        break;
    case SEXT:
        if (a->hi <= mask(a->w - 1)) { e->lo = a->lo; e->hi = a->hi; e->pm = a->pm; }
        break;
    default: break;
    }
    if (e->hi > e->pm) e->hi = e->pm;
    if (e->hi != M) { // highest possible bit
        uint64_t h = e->hi; unsigned bits = h ? 64 - __builtin_clzll(h) : 0;
        e->pm &= mask(bits);
    }
}

static E intern(Op op, unsigned w, unsigned aux, E a, E b, E c, uint64_t k) {
    uint64_t h = hashE(op, w, aux, a, b, c, k);
    size_t m = table_.size() - 1, i = h & m;
    while (table_[i]) {
        E x = table_[i];
        if (x->op == op && x->w == w && x->aux == aux && x->a == a && x->b == b && x->c == c && x->k == k) return x;
        i = (i + 1) & m;
    }
    if (slabs.empty() || slabUsed == SLAB) { slabs.push_back((Expr *) malloc(SLAB * sizeof(Expr))); slabUsed = 0; }
    Expr *e = slabs.back() + slabUsed++;
    e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->k = k; e->id = ++nexprs; e->ep = 0; e->ev = 0;
    if (op == SYM) e->vars = vsIntern(VarSet{ (uint32_t) k });
    else {
        e->vars = emptyVS;
        if (a) e->vars = vsUnion(e->vars, a->vars);
        if (b) e->vars = vsUnion(e->vars, b->vars);
        if (c) e->vars = vsUnion(e->vars, c->vars);
    }
    ranges(e);
    table_[i] = e;
    if (++tcount * 2 > table_.size()) {
        std::vector<E> t2(table_.size() * 2, nullptr); size_t m2 = t2.size() - 1;
        for (E x : table_) if (x) {
            size_t j = hashE(x->op, x->w, x->aux, x->a, x->b, x->c, x->k) & m2;
            while (t2[j]) j = (j + 1) & m2;
            t2[j] = x;
        }
        table_.swap(t2);
    }
    return e;
}

static E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned aux = 0) {
    E e = intern(op, w, aux, a, b, c, 0);
    if (e->lo == e->hi) return mkConst(w, e->lo);
    return e;
}

E mkConst(unsigned w, uint64_t v) { return intern(CONST, w, 0, nullptr, nullptr, nullptr, v & mask(w)); }
E mkSym(unsigned w, uint32_t var) { return intern(SYM, w, 0, nullptr, nullptr, nullptr, var); }

uint64_t evalOp(Op op, unsigned w, uint64_t x, uint64_t y) {
    uint64_t M = mask(w);
    switch (op) {
    case ADD: return (x + y) & M;
    case SUB: return (x - y) & M;
    case MUL: return (x * y) & M;
    case UDIV: return y ? x / y : M;
    case UREM: return y ? x % y : x;
    case SDIV: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return (p < 0 ? 1 : M) & M; if (q == -1) return (0 - x) & M; return (uint64_t) (p / q) & M; }
    case SREM: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (uint64_t) (p % q) & M; }
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & M;
    case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (uint64_t) (sx(x, w) >> (y >= w ? w - 1 : y)) & M;
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w);
    case SLE: return sx(x, w) <= sx(y, w);
    default: abort();
    }
}

static inline bool isCmp(Op op) { return op >= EQ && op <= SLE; }
static inline bool iteCC(E e) { return e->op == ITE && isC(e->b) && isC(e->c); }
static inline bool zIteCC(E e) { return e->op == CONCAT && isC(e->a) && e->a->k == 0 && iteCC(e->b); }
static bool segmented(E e) { return e->op == CONCAT || e->op == CONST; }

E mkNot(E x) {
    if (isC(x)) return mkConst(1, !x->k);
    if (x->op == XOR && isC(x->a)) return x->b;
    if (x->op == ULT) return mk(ULE, x->b, x->a);
    if (x->op == ULE) return mk(ULT, x->b, x->a);
    if (x->op == SLT) return mk(SLE, x->b, x->a);
    if (x->op == SLE) return mk(SLT, x->b, x->a);
    return raw(XOR, 1, mkConst(1, 1), x);
}

static unsigned sig(E e) { return e->pm ? 64 - __builtin_clzll(e->pm) : 0; }

E mk(Op op, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkConst(isCmp(op) ? 1 : w, evalOp(op, w, a->k, b->k));
    switch (op) {
    case ADD: case MUL: case AND: case OR: case XOR: case EQ:
        if (isC(b) || (!isC(a) && a->id > b->id)) std::swap(a, b);
        break;
    default: break;
    }
    // push through ite with constant branches
    if (op != CONCAT) {
        if (isC(a) && iteCC(b)) return mkIte(b->a, mk(op, a, b->b), mk(op, a, b->c));
        if (isC(b) && iteCC(a)) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
        if (isC(a) && zIteCC(b)) { E i = b->b; return mkIte(i->a, mk(op, a, mkConst(w, i->b->k)), mk(op, a, mkConst(w, i->c->k))); }
        if (isC(b) && zIteCC(a)) { E i = a->b; return mkIte(i->a, mk(op, mkConst(w, i->b->k), b), mk(op, mkConst(w, i->c->k), b)); }
    }
    switch (op) {
    case ADD:
        if (w == 1) return mk(XOR, a, b);
        if (isC(a)) {
            if (a->k == 0) return b;
            if (b->op == ADD && isC(b->a)) return mk(ADD, mkConst(w, a->k + b->a->k), b->b);
            if (b->op == SUB && isC(b->a)) return mk(SUB, mkConst(w, a->k + b->a->k), b->b);
        }
        if ((a->pm & b->pm) == 0) return mk(OR, a, b);
        if (a->op == ADD && isC(a->a)) return mk(ADD, a->a, mk(ADD, a->b, b));
        if (b->op == ADD && isC(b->a)) return mk(ADD, b->a, mk(ADD, a, b->b));
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        return raw(ADD, w, a, b);
    case SUB:
        if (w == 1) return mk(XOR, a, b);
        if (a == b) return mkConst(w, 0);
        if (isC(b)) return mk(ADD, mkConst(w, 0 - b->k), a);
        if (a->op == ADD && isC(a->a)) return mk(ADD, a->a, mk(SUB, a->b, b));
        if (b->op == ADD && isC(b->a)) return mk(ADD, mkConst(w, 0 - b->a->k), mk(SUB, a, b->b));
        if (a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        if (b->op == ADD) { if (b->a == a) return mk(SUB, mkConst(w, 0), b->b); if (b->b == a) return mk(SUB, mkConst(w, 0), b->a); }
        if (b->op == SUB && b->a == a) return b->b;
        if (a->op == SUB && a->a == b) return mk(SUB, mkConst(w, 0), a->b);
        return raw(SUB, w, a, b);
    case MUL:
        if (w == 1) return mk(AND, a, b);
        if (isC(a)) {
            if (a->k == 0) return a;
            if (a->k == 1) return b;
            if ((a->k & (a->k - 1)) == 0) return mk(SHL, b, mkConst(w, __builtin_ctzll(a->k)));
            if (b->op == MUL && isC(b->a)) return mk(MUL, mkConst(w, a->k * b->a->k), b->b);
            if (b->op == ADD && isC(b->a)) return mk(ADD, mkConst(w, a->k * b->a->k), mk(MUL, a, b->b));
        }
        return raw(MUL, w, a, b);
    case UDIV:
        if (isC(b) && b->k == 1) return a;
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mk(LSHR, a, mkConst(w, __builtin_ctzll(b->k)));
        if (b->lo > a->hi) return mkConst(w, 0);
        { unsigned s = std::max(sig(a), sig(b)); if (s && s < w && b->lo > 0) return mkZExt(mk(UDIV, mkExtract(a, 0, s), mkExtract(b, 0, s)), w); }
        return raw(op, w, a, b);
    case UREM:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mk(AND, mkConst(w, b->k - 1), a);
        if (b->lo > a->hi) return a;
        { unsigned s = std::max(sig(a), sig(b)); if (s && s < w && b->lo > 0) return mkZExt(mk(UREM, mkExtract(a, 0, s), mkExtract(b, 0, s)), w); }
        return raw(op, w, a, b);
    case SDIV: if (sig(a) < w && sig(b) < w && b->lo > 0) return mk(UDIV, a, b); return raw(op, w, a, b);
    case SREM: if (sig(a) < w && sig(b) < w && b->lo > 0) return mk(UREM, a, b); return raw(op, w, a, b);
    case AND:
        if (a == b) return a;
        if (isC(a)) {
            if (a->k == 0) return a;
            if ((a->k & b->pm) == b->pm) return b;
            uint64_t k = a->k & b->pm;
            if (k == 0) return mkConst(w, 0);
            if (b->op == AND && isC(b->a)) return mk(AND, mkConst(w, a->k & b->a->k), b->b);
            // contiguous run of ones -> extract
            unsigned tz = __builtin_ctzll(k); uint64_t r = k >> tz;
            // widen the run over bits that are known zero
            if ((r & (r + 1)) == 0) {
                unsigned n = 64 - __builtin_clzll(r);
                if (n == 64) return b;
                E x = mkExtract(b, tz, n);
                if (tz) x = mkConcat(x, mkConst(tz, 0));
                return mkZExt(x, w);
            }
        }
        if (w == 1 && b->op == XOR && isC(b->a) && b->b == a) return mkConst(1, 0);
        if (w == 1 && a->op == XOR && isC(a->a) && a->b == b) return mkConst(1, 0);
        break;
    case OR:
        if (a == b) return a;
        if (isC(a)) { if (a->k == 0) return b; if (a->k == mask(w)) return a; }
        if (w == 1 && b->op == XOR && isC(b->a) && b->b == a) return mkConst(1, 1);
        if (w == 1 && a->op == XOR && isC(a->a) && a->b == b) return mkConst(1, 1);
        break;
    case XOR:
        if (a == b) return mkConst(w, 0);
        if (isC(a)) {
            if (a->k == 0) return b;
            if (w == 1) return mkNot(b);
            if (b->op == XOR && isC(b->a)) return mk(XOR, mkConst(w, a->k ^ b->a->k), b->b);
        }
        break;
    case SHL:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            return mkConcat(mkExtract(a, 0, w - b->k), mkConst(b->k, 0));
        }
        if (isC(a) && a->k == 0) return a;
        return raw(op, w, a, b);
    case LSHR:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            return mkZExt(mkExtract(a, b->k, w - b->k), w);
        }
        if (isC(a) && a->k == 0) return a;
        return raw(op, w, a, b);
    case ASHR:
        if (sig(a) < w) return mk(LSHR, a, b);
        if (isC(b)) {
            if (b->k == 0) return a;
            unsigned k = b->k >= w ? w - 1 : b->k;
            return mkSExt(mkExtract(a, k, w - k), w);
        }
        return raw(op, w, a, b);
    case EQ: {
        if (a == b) return mkConst(1, 1);
        if (a->hi < b->lo || b->hi < a->lo) return mkConst(1, 0);
        if (w == 1) {
            if (isC(a)) return a->k ? b : mkNot(b);
        }
        if (isC(a)) {
            if (a->k & ~b->pm) return mkConst(1, 0);
            switch (b->op) {
            case ADD: if (isC(b->a)) return mk(EQ, mkConst(w, a->k - b->a->k), b->b); break;
            case SUB: if (isC(b->a)) return mk(EQ, mkConst(w, b->a->k - a->k), b->b);
                if (a->k == 0) return mk(EQ, b->a, b->b); break;
            case XOR: if (isC(b->a)) return mk(EQ, mkConst(w, a->k ^ b->a->k), b->b);
                if (a->k == 0) return mk(EQ, b->a, b->b); break;
            case OR: if (a->k == 0) return mk(AND, mk(EQ, a, b->a), mk(EQ, a, b->b)); break;
            case CONCAT: return mk(AND, mk(EQ, mkConst(b->a->w, a->k >> b->b->w), b->a), mk(EQ, mkConst(b->b->w, a->k), b->b));
            case SEXT: {
                E x = mkConst(b->a->w, a->k);
                if ((uint64_t) (sx(x->k, x->w) & mask(w)) != a->k) return mkConst(1, 0);
                return mk(EQ, x, b->a);
            }
            case ITE:
                if (isC(b->b)) { E t = mk(EQ, a, b->b); E f = mk(EQ, a, b->c); return mkIte(b->a, t, f); }
                if (isC(b->c)) { E t = mk(EQ, a, b->b); E f = mk(EQ, a, b->c); return mkIte(b->a, t, f); }
                break;
            default: break;
            }
        } else {
            unsigned s = std::max(sig(a), sig(b));
            if (s && s < w) return mk(EQ, mkExtract(a, 0, s), mkExtract(b, 0, s));
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
                return mk(AND, mk(EQ, a->a, b->a), mk(EQ, a->b, b->b));
            if (a->op == ADD && b->op == ADD && isC(a->a) && a->a == b->a) return mk(EQ, a->b, b->b);
            if (a->op == ADD && a->b == b && isC(a->a)) return mkConst(1, 0);
            if (b->op == ADD && b->b == a && isC(b->a)) return mkConst(1, 0);
        }
        return raw(EQ, 1, a, b);
    }
    case ULT: case ULE: {
        if (a == b) return mkConst(1, op == ULE);
        if (op == ULT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(1, 0); }
        else { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(1, 0); }
        unsigned s = std::max(sig(a), sig(b));
        if (s && s < w) return mk(op, mkExtract(a, 0, s), mkExtract(b, 0, s));
        if (w == 1) { if (op == ULT) return mk(AND, mkNot(a), b); return mk(OR, mkNot(a), b); }
        if (op == ULT && isC(b) && b->k == 1) return mk(EQ, mkConst(w, 0), a);
        if (op == ULT && isC(a) && a->k == 0) return mkNot(mk(EQ, a, b));
        if (op == ULE && isC(b) && b->k == 0) return mk(EQ, b, a);
        if (op == ULE && isC(a) && a->k == 1) return mkNot(mk(EQ, mkConst(w, 0), b));
        if (op == ULT && isC(b)) return mk(ULE, a, mkConst(w, b->k - 1));
        if (op == ULT && isC(a)) return mk(ULE, mkConst(w, a->k + 1), b);
        return raw(op, 1, a, b);
    }
    case SLT: case SLE:
        if (a == b) return mkConst(1, op == SLE);
        if (sig(a) < w && sig(b) < w) return mk(op == SLT ? ULT : ULE, a, b);
        if (isC(b) && b->k == 0 && op == SLT) return mkExtract(a, w - 1, 1);
        if (isC(a) && a->k == mask(w) && op == SLT) return mkNot(mkExtract(b, w - 1, 1));
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(op, a->a, b->a);
        if (a->op == SEXT && isC(b) && (uint64_t) (sx(b->k & mask(a->a->w), a->a->w) & mask(w)) == b->k) return mk(op, a->a, mkConst(a->a->w, b->k));
        if (b->op == SEXT && isC(a) && (uint64_t) (sx(a->k & mask(b->a->w), b->a->w) & mask(w)) == a->k) return mk(op, mkConst(b->a->w, a->k), b->a);
        return raw(op, 1, a, b);
    default: abort();
    }
    // AND / OR / XOR: align on concat boundaries
    if (a->op == CONCAT && segmented(b)) {
        unsigned lw = a->b->w;
        return mkConcat(mk(op, a->a, mkExtract(b, lw, w - lw)), mk(op, a->b, mkExtract(b, 0, lw)));
    }
    if (b->op == CONCAT && segmented(a)) {
        unsigned lw = b->b->w;
        return mkConcat(mk(op, mkExtract(a, lw, w - lw), b->a), mk(op, mkExtract(a, 0, lw), b->b));
    }
    if (op == OR && (a->pm & b->pm) == 0 && w > 1) {
        // disjoint: if one lies entirely above the other, concatenate
        unsigned sa = sig(a), sb = sig(b);
        if (sa && sb) {
            unsigned ta = __builtin_ctzll(a->pm), tb = __builtin_ctzll(b->pm);
            if (ta >= sb && sb < w) return mkConcat(mkExtract(a, sb, w - sb), mkExtract(b, 0, sb));
            if (tb >= sa && sa < w) return mkConcat(mkExtract(b, sa, w - sa), mkExtract(a, 0, sa));
        }
    }
    return raw(op, w, a, b);
}

E mkIte(E c, E a, E b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isC(c->a)) return mkIte(c->b, b, a);
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
        if (isC(a)) return a->k ? mk(OR, c, b) : mk(AND, mkNot(c), b);
        if (isC(b)) return b->k ? mk(OR, mkNot(c), a) : mk(AND, c, a);
    }
    if (a->op == ITE && a->a == c) a = a->b;
    if (b->op == ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (b->op == ITE && b->b == a) return mkIte(mk(OR, c, b->a), a, b->c);
    if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w && (a->a == b->a || a->b == b->b))
        return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
    unsigned s = std::max(sig(a), sig(b));
    if (s == 0) return mkConst(a->w, 0);
    if (s < a->w) return mkZExt(mkIte(c, mkExtract(a, 0, s), mkExtract(b, 0, s)), a->w);
    return raw(ITE, a->w, c, a, b);
}

E mkConcat(E a, E b) {
    unsigned w = a->w + b->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(a) && isC(b)) return mkConst(w, a->k << b->w | b->k);
    if (a->op == CONCAT) return mkConcat(a->a, mkConcat(a->b, b));
    if (b->op == CONCAT) {
        if (isC(a) && isC(b->a)) return mkConcat(mkConst(a->w + b->a->w, a->k << b->a->w | b->a->k), b->b);
        if (a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->aux == b->a->aux + b->a->w)
            return mkConcat(mkExtract(a->a, b->a->aux, a->w + b->a->w), b->b);
        // extract adjacent to the full low part
        if (a->op == EXTRACT && a->a == b->a && a->aux == b->a->w) {}
    }
    if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->aux == b->aux + b->w)
        return mkExtract(a->a, b->aux, w);
    if (iteCC(a) && isC(b)) return mkIte(a->a, mkConcat(a->b, b), mkConcat(a->c, b));
    if (isC(a) && a->k != 0 && iteCC(b)) return mkIte(b->a, mkConcat(a, b->b), mkConcat(a, b->c));
    return raw(CONCAT, w, a, b);
}

E mkExtract(E x, unsigned off, unsigned w) {
    if (off == 0 && w == x->w) return x;
    if (isC(x)) return mkConst(w, x->k >> off);
    if (((x->pm >> off) & mask(w)) == 0) return mkConst(w, 0);
    switch (x->op) {
    case EXTRACT: return mkExtract(x->a, x->aux + off, w);
    case CONCAT: {
        unsigned lw = x->b->w;
        if (off >= lw) return mkExtract(x->a, off - lw, w);
        if (off + w <= lw) return mkExtract(x->b, off, w);
        return mkConcat(mkExtract(x->a, 0, off + w - lw), mkExtract(x->b, off, lw - off));
    }
    case SEXT:
        if (off + w <= x->a->w) return mkExtract(x->a, off, w);
        if (off >= x->a->w) { E s = mkExtract(x->a, x->a->w - 1, 1); return mkSExt(s, w); }
        if (off == 0) return mkSExt(x->a, w);
        return mkSExt(mkExtract(x->a, off, x->a->w - off), w);
    case AND: case OR: case XOR: return mk(x->op, mkExtract(x->a, off, w), mkExtract(x->b, off, w));
    case ADD: case SUB: case MUL:
        if (off == 0) return mk(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
        break;
    case ITE:
        return mkIte(x->a, mkExtract(x->b, off, w), mkExtract(x->c, off, w));
    default: break;
    }
    return raw(EXTRACT, w, x, nullptr, nullptr, off);
}

E mkZExt(E x, unsigned w) {
    if (w == x->w) return x;
    if (isC(x)) return mkConst(w, x->k);
    return mkConcat(mkConst(w - x->w, 0), x);
}

E mkSExt(E x, unsigned w) {
    if (w == x->w) return x;
    if (isC(x)) return mkConst(w, (uint64_t) sx(x->k, x->w));
    if (sig(x) < x->w) return mkZExt(x, w);
    if (iteCC(x)) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
    if (x->w == 1) return mkIte(x, mkConst(w, ~0ull), mkConst(w, 0));
    if (x->op == SEXT) return mkSExt(x->a, w);
    return raw(SEXT, w, x);
}

static const char *opn[] = { "const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
    "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "sext" };
std::string show(E e, int d) {
    char b[64];
    if (e->op == CONST) { snprintf(b, sizeof b, "%llu:%u", (unsigned long long) e->k, e->w); return b; }
    if (e->op == SYM) { snprintf(b, sizeof b, "v%llu", (unsigned long long) e->k); return b; }
    if (d == 0) return "..";
    std::string s = std::string("(") + opn[e->op];
    if (e->op == EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", e->aux, e->w); s += b; }
    for (E x : { e->a, e->b, e->c }) if (x) s += " " + show(x, d - 1);
    return s + ")";
}

// ---- evaluation -----------------------------------------------------------
static uint32_t epochs = 0;
ModelP newModel(std::vector<uint64_t> v) { auto m = std::make_shared<Model>(); m->v = std::move(v); m->epoch = ++epochs; return m; }

uint64_t evalE(E e, const Model &m) {
    if (e->op == CONST) return e->k;
    if (e->ep == m.epoch) return e->ev;
    uint64_t r;
    switch (e->op) {
    case SYM: r = e->k < m.v.size() ? m.v[e->k] & mask(e->w) : 0; break;
    case ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case CONCAT: r = evalE(e->a, m) << e->b->w | evalE(e->b, m); break;
    case EXTRACT: r = (evalE(e->a, m) >> e->aux) & mask(e->w); break;
    case SEXT: r = (uint64_t) sx(evalE(e->a, m), e->a->w) & mask(e->w); break;
    default: r = evalOp(e->op, e->a->w, evalE(e->a, m), evalE(e->b, m)); break;
    }
    e->ep = m.epoch; e->ev = r;
    return r;
}

// ---- Z3 -------------------------------------------------------------------
SolverStats g_ss; 
// resource limits, not wall-clock ones: verdicts do not depend on the load of the machine
// (and no timer threads, which would not survive the fork of the explorer)
unsigned g_rlimit1 = 3000000, g_rlimit2 = 400000000;
static Z3_context C; static Z3_solver S, S2;
static std::unordered_map<E, Z3_ast> zb, zv;   // bool / bit-vector forms
static std::vector<Z3_ast> zvars;

static Z3_ast ref(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast toV(E e); static Z3_ast toB(E e);

static void zinit() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); exit(3); });
    S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), g_rlimit1);
    Z3_solver_set_params(C, S, p);
}
static Z3_ast zvar(uint32_t v) {
    if (zvars.size() <= v) zvars.resize(v + 1, nullptr);
    if (!zvars[v]) {
        char n[32]; snprintf(n, sizeof n, "v%u", v);
        zvars[v] = ref(Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, g_vars[v].w)));
    }
    return zvars[v];
}
static Z3_ast toV(E e) {
    auto it = zv.find(e); if (it != zv.end()) return it->second;
    Z3_ast r;
    if (e->w == 1 && (isCmp(e->op) || e->op == AND || e->op == OR || e->op == XOR || e->op == ITE)) {
        Z3_sort s1 = Z3_mk_bv_sort(C, 1);
        Z3_ast one = ref(Z3_mk_unsigned_int64(C, 1, s1)), zero = ref(Z3_mk_unsigned_int64(C, 0, s1));
        r = Z3_mk_ite(C, toB(e), one, zero);
        Z3_dec_ref(C, one); Z3_dec_ref(C, zero);
    } else switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(C, e->k, Z3_mk_bv_sort(C, e->w)); break;
    case SYM: r = zvar(e->k); break;
    case ADD: r = Z3_mk_bvadd(C, toV(e->a), toV(e->b)); break;
    case SUB: r = Z3_mk_bvsub(C, toV(e->a), toV(e->b)); break;
    case MUL: r = Z3_mk_bvmul(C, toV(e->a), toV(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(C, toV(e->a), toV(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(C, toV(e->a), toV(e->b)); break;
    case UREM: r = Z3_mk_bvurem(C, toV(e->a), toV(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(C, toV(e->a), toV(e->b)); break;
    case AND: r = Z3_mk_bvand(C, toV(e->a), toV(e->b)); break;
    case OR: r = Z3_mk_bvor(C, toV(e->a), toV(e->b)); break;
    case XOR: r = Z3_mk_bvxor(C, toV(e->a), toV(e->b)); break;
    case SHL: r = Z3_mk_bvshl(C, toV(e->a), toV(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(C, toV(e->a), toV(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(C, toV(e->a), toV(e->b)); break;
    case ITE: r = Z3_mk_ite(C, toB(e->a), toV(e->b), toV(e->c)); break;
    case CONCAT: r = Z3_mk_concat(C, toV(e->a), toV(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, toV(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, toV(e->a)); break;
    default: abort();
    }
    zv[e] = ref(r);
    return r;
}
static Z3_ast toB(E e) {
    auto it = zb.find(e); if (it != zb.end()) return it->second;
    Z3_ast r, t[2];
    switch (e->op) {
    case CONST: r = e->k ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case AND: t[0] = toB(e->a); t[1] = toB(e->b); r = Z3_mk_and(C, 2, t); break;
    case OR: t[0] = toB(e->a); t[1] = toB(e->b); r = Z3_mk_or(C, 2, t); break;
    case XOR: if (isC(e->a)) r = e->a->k ? Z3_mk_not(C, toB(e->b)) : toB(e->b); else r = Z3_mk_xor(C, toB(e->a), toB(e->b)); break;
    case ITE: r = Z3_mk_ite(C, toB(e->a), toB(e->b), toB(e->c)); break;
    case EQ: if (e->a->w == 1) r = Z3_mk_iff(C, toB(e->a), toB(e->b)); else r = Z3_mk_eq(C, toV(e->a), toV(e->b)); break;
    case ULT: r = Z3_mk_bvult(C, toV(e->a), toV(e->b)); break;
    case ULE: r = Z3_mk_bvule(C, toV(e->a), toV(e->b)); break;
    case SLT: r = Z3_mk_bvslt(C, toV(e->a), toV(e->b)); break;
    case SLE: r = Z3_mk_bvsle(C, toV(e->a), toV(e->b)); break;
    default: {
        Z3_ast one = ref(Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
        r = Z3_mk_eq(C, toV(e), one); ref(r); Z3_dec_ref(C, one); zb[e] = r; return r; }
    }
    zb[e] = ref(r);
    return r;
}
void solverReset() {
    if (!C) return;
    for (auto &p : zb) Z3_dec_ref(C, p.second);
    for (auto &p : zv) Z3_dec_ref(C, p.second);
    zb.clear(); zv.clear();
    Z3_solver_dec_ref(C, S);
    S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), g_rlimit1);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
}

struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey &o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey &q) const { uint64_t h = 17; for (auto x : q.ids) h = hmix(h, x); return h; } };
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<QKey, QRes, QHash> qcache;

static bool vsIntersect(const VarSet *a, const VarSet *b) {
    auto i = a->begin(); auto j = b->begin();
    while (i != a->end() && j != b->end()) { if (*i < *j) ++i; else if (*j < *i) ++j; else return true; }
    return false;
}

int solve(const std::vector<E> &pc, E cond, const ModelP &base, ModelP &m) {
    if (isC(cond)) { m = base; return cond->k ? 1 : 0; }
    zinit();
    // slice
    const VarSet *vs = cond->vars;
    std::vector<E> sl; std::vector<E> rest(pc);
    for (bool ch = true; ch;) {
        ch = false;
        size_t o = 0;
        for (size_t i = 0; i < rest.size(); i++) {
            if (vsIntersect(rest[i]->vars, vs)) { sl.push_back(rest[i]); const VarSet *n = vsUnion(vs, rest[i]->vars); if (n != vs) { vs = n; ch = true; } }
            else rest[o++] = rest[i];
        }
        rest.resize(o);
    }
    QKey key; for (E x : sl) key.ids.push_back(x->id);
    std::sort(key.ids.begin(), key.ids.end()); key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
    key.ids.push_back(cond->id);
    auto apply = [&](const QRes &q) {
        std::vector<uint64_t> v = base ? base->v : std::vector<uint64_t>();
        for (auto &p : q.m) { if (v.size() <= p.first) v.resize(p.first + 1, 0); v[p.first] = p.second; }
        m = newModel(std::move(v));
    };
    auto it = qcache.find(key);
    if (it != qcache.end()) { g_ss.cacheHits++; if (it->second.r == 1) apply(it->second); return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    if (zv.size() > 400000) solverReset();
    QRes q; Z3_lbool r;
    // one small variable: decided by its finite domain
    if (vs->size() == 1 && g_vars[(*vs)[0]].w <= 8) {
        static Model em; uint32_t v = (*vs)[0]; unsigned w = g_vars[v].w;
        if (em.v.size() <= v) em.v.resize(v + 1, 0);
        q.r = 0;
        for (uint64_t u = 0; u <= mask(w) && !q.r; u++) {
            em.v[v] = u; em.epoch = ++epochs;
            bool ok = evalE(cond, em);
            for (size_t i = 0; ok && i < sl.size(); i++) ok = evalE(sl[i], em);
            if (ok) { q.r = 1; q.m.push_back({ v, u }); }
        }
        em.v[v] = 0;
        g_ss.queries++; if (q.r) g_ss.sat++; else g_ss.unsat++;
        qcache[key] = q;
        if (q.r == 1) apply(q);
        return q.r;
    }
    auto getModel = [&](Z3_solver s) {
        Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
        for (uint32_t v : *vs) {
            Z3_ast val = nullptr; uint64_t u = 0;
            if (Z3_model_eval(C, zm, zvar(v), true, &val)) { ref(val); Z3_get_numeral_uint64(C, val, &u); Z3_dec_ref(C, val); }
            q.m.push_back({ v, u });
        }
        Z3_model_dec_ref(C, zm);
    };
    Z3_solver_push(C, S);
    for (E x : sl) Z3_solver_assert(C, S, toB(x));
    Z3_solver_assert(C, S, toB(cond));
    r = Z3_solver_check(C, S);
    if (r == Z3_L_TRUE) getModel(S);
    Z3_solver_pop(C, S, 1);
    if (r == Z3_L_UNDEF) {
        Z3_tactic tc = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, tc);
        Z3_solver s2 = Z3_mk_solver_from_tactic(C, tc); Z3_solver_inc_ref(C, s2);
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), g_rlimit2);
        Z3_solver_set_params(C, s2, p); Z3_params_dec_ref(C, p);
        for (E x : sl) Z3_solver_assert(C, s2, toB(x));
        Z3_solver_assert(C, s2, toB(cond));
        r = Z3_solver_check(C, s2);
        if (r == Z3_L_TRUE) getModel(s2);
        Z3_solver_dec_ref(C, s2); Z3_tactic_dec_ref(C, tc);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    static const char *slow = getenv("VFX_SLOW");
    if (slow && dt > atof(slow)) { fprintf(stderr, "SLOW %.2f r=%d cond %s\n", dt, (int) r, show(cond, 12).c_str()); for (E x : sl) fprintf(stderr, "   pc %s\n", show(x, 12).c_str()); }
    g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (q.r == 1) g_ss.sat++; else if (q.r == 0) g_ss.unsat++; else g_ss.unknown++;
    if (q.r >= 0) {
        if (qcache.size() > 2000000) qcache.clear();
        qcache[key] = q;
    }
    if (q.r == 1) {
        apply(q);
        // self-check: the model satisfies what was asked
        for (E x : sl) if (!evalE(x, *m)) { fprintf(stderr, "model does not satisfy the slice\n"); exit(3); }
        if (!evalE(cond, *m)) { fprintf(stderr, "model does not satisfy the query: %s\n", show(cond).c_str()); exit(3); }
    }
    return q.r;
}
