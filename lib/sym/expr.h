// Hash-consed bit-vector expressions (widths 1..64) with local simplification,
// and the solver layer (Z3) that decides path conditions and obligations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <functional>
#include <z3.h>

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
    SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, SEXT };

typedef std::vector<uint32_t> VarSet;

struct Expr {
    Op op; uint8_t w; uint8_t aux;      // aux: extract offset
    uint32_t id;
    const Expr *a, *b, *c;
    uint64_t k;                         // const value / variable index
    uint64_t lo, hi, pm;                // unsigned range, mask of possibly set bits
    const VarSet *vars;
    mutable uint64_t ev; mutable uint32_t ep;   // evaluation memo
};
typedef const Expr *E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }

struct VarInfo { uint8_t w; bool uninit; };
extern std::vector<VarInfo> g_vars;

E mkConst(unsigned w, uint64_t v);
E mkSym(unsigned w, uint32_t var);
E mk(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E a, E b);
E mkExtract(E x, unsigned off, unsigned w);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkNot(E x);       // w1
static inline bool isC(E e) { return e->op == CONST; }
uint64_t evalOp(Op op, unsigned w, uint64_t x, uint64_t y);
size_t exprCount();
std::string show(E e, int depth = 6);

// a total assignment; variables not present are 0
struct Model { std::vector<uint64_t> v; uint32_t epoch = 0; };
typedef std::shared_ptr<const Model> ModelP;
ModelP newModel(std::vector<uint64_t> v);
uint64_t evalE(E e, const Model &m);

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_rlimit1, g_rlimit2;
// 1 sat (m = model consistent with base outside the slice), 0 unsat, -1 unknown
int solve(const std::vector<E> &pc, E cond, const ModelP &base, ModelP &m);
void solverReset();
