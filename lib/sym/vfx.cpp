// vfx: path-forking symbolic executor for LLVM IR.
// Inputs (vf_sym*) are symbolic bit-vectors; every branch on them is explored on
// both sides when the solver finds it feasible; memory is exact (per-object bounds,
// liveness, initialisation), function pointers are exact.
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <set>
#include <atomic>
#include <cmath>
#include <cstdarg>

// ---------------------------------------------------------------- values
struct V { E e; uint64_t c; };
static inline V cv(uint64_t c) { return V{ nullptr, c }; }
static inline V ve(E e) { return isC(e) ? V{ nullptr, e->k } : V{ e, 0 }; }
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

// ---------------------------------------------------------------- program
struct Opnd { int reg; uint64_t c; };
struct Func;
struct Inst {
    int op = 0, pred = 0; unsigned w = 0, w2 = 0; int dst = -1; int n = 0;
    std::vector<Opnd> ops; std::vector<int> bbs; std::vector<uint64_t> imm; std::vector<unsigned> opw;
    std::vector<std::vector<Opnd>> agg;   // flattened aggregate operands
    int intr = 0; int line = 0; bool flag = false; std::string name;
    std::vector<uint8_t> leafw;
};
struct BB { std::vector<Inst> insts; int nphi = 0; bool covered = false; };
struct Func {
    std::string name, file; std::vector<BB> bbs; int nregs = 0; int nargs = 0; bool vararg = false, decl = false;
    std::vector<int> argreg; std::vector<int> argn; std::vector<uint64_t> byval; uint64_t addr = 0; int intr = 0; bool executed = false; int line = 0;
    LLVMValueRef v = nullptr;
};
static std::vector<Func *> funcs; static std::map<LLVMValueRef, Func *> fmap; static std::unordered_map<uint64_t, Func *> faddr;
static LLVMTargetDataRef TD; static LLVMModuleRef M;

enum Intr { I_NONE = 0, I_IGNORE, I_SYM8, I_SYM16, I_SYM32, I_SYM64, I_ASSUME, I_CHECK, I_REACHED, I_MALLOC, I_CALLOC, I_FREE, I_MEMALIGN,
    I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_BSWAP, I_CTLZ, I_CTTZ, I_CTPOP, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_UMULO, I_SMULO,
    I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_FSHL, I_FSHR, I_EXPECT, I_OBJSIZE, I_USUBSAT, I_UADDSAT, I_VASTART, I_VACOPY, I_STACKSAVE,
    I_ABORT, I_EXIT, I_RET0, I_CONCRETIZE, I_VALID, I_LIVE, I_ISCONST, I_TRAP, I_ISSYM, I_SWITCHLIM, I_RETARG, I_INITED, I_FABS, I_SSUBSAT, I_SADDSAT, I_ITE, I_OBJBASE, I_PRINT, I_UNINITMARK, I_BITREV, I_MAYBE };

static const std::map<std::string, int> intrNames = {
    { "vf_sym8", I_SYM8 }, { "vf_sym16", I_SYM16 }, { "vf_sym32", I_SYM32 }, { "vf_sym64", I_SYM64 },
    { "vf_assume", I_ASSUME }, { "vf_check", I_CHECK }, { "vf_reached", I_REACHED },
    { "vf_malloc", I_MALLOC }, { "malloc", I_MALLOC }, { "calloc", I_CALLOC }, { "vf_calloc", I_CALLOC }, { "free", I_FREE }, { "vf_free", I_FREE }, { "vf_memalign", I_MEMALIGN },
    { "memcpy", I_MEMCPY }, { "memmove", I_MEMMOVE }, { "memset", I_MEMSET }, { "memcmp", I_MEMCMP }, { "bcmp", I_MEMCMP },
    { "abort", I_ABORT }, { "exit", I_EXIT }, { "_exit", I_EXIT }, { "printf", I_RET0 }, { "puts", I_RET0 }, { "fprintf", I_RET0 }, { "fflush", I_RET0 }, { "putchar", I_RET0 },
    { "vf_concretize", I_CONCRETIZE }, { "vf_valid", I_VALID }, { "vf_live_heap", I_LIVE }, { "__assert_fail", I_ABORT }, { "vf_is_sym", I_ISSYM }, { "vf_ite", I_ITE }, { "vf_print", I_PRINT }, { "vf_maybe", I_MAYBE },
};

static void die(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void die(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "vfx: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); exit(3); }

static unsigned bits(LLVMTypeRef t) {
    switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
    case LLVMPointerTypeKind: return 64;
    case LLVMDoubleTypeKind: return 64;
    case LLVMFloatTypeKind: return 32;
    case LLVMVoidTypeKind: return 0;
    case LLVMX86_FP80TypeKind: return 80;
    default: return 0;
    }
}
static bool isAgg(LLVMTypeRef t) { auto k = LLVMGetTypeKind(t); return k == LLVMStructTypeKind || k == LLVMArrayTypeKind; }
static void leaves(LLVMTypeRef t, uint64_t off, std::vector<std::pair<LLVMTypeRef, uint64_t>> &out) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
        unsigned n = LLVMCountStructElementTypes(t);
        for (unsigned i = 0; i < n; i++) leaves(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), out);
    } else if (LLVMGetTypeKind(t) == LLVMArrayTypeKind) {
        unsigned n = LLVMGetArrayLength(t); LLVMTypeRef et = LLVMGetElementType(t); uint64_t sz = LLVMABISizeOfType(TD, et);
        for (unsigned i = 0; i < n; i++) leaves(et, off + i * sz, out);
    } else out.push_back({ t, off });
}
static int nleaves(LLVMTypeRef t) { if (!isAgg(t)) return 1; std::vector<std::pair<LLVMTypeRef, uint64_t>> l; leaves(t, 0, l); return l.size(); }

// ---------------------------------------------------------------- memory
enum { K_GLOBAL, K_CONST, K_HEAP, K_STACK };
static const E UNINIT = (E) (uintptr_t) 8;
struct Obj {
    int rc = 0; uint64_t addr; uint64_t size; uint8_t kind; bool freed = false;
    std::vector<uint8_t> b; std::vector<E> s;
};
struct OP {
    Obj *p = nullptr;
    OP() {} OP(Obj *o) : p(o) { if (p) p->rc++; } OP(const OP &o) : p(o.p) { if (p) p->rc++; }
    OP(OP &&o) noexcept : p(o.p) { o.p = nullptr; }
    OP &operator=(OP o) { std::swap(p, o.p); return *this; }
    ~OP() { if (p && --p->rc == 0) delete p; }
    Obj *operator->() const { return p; }
};
static std::map<LLVMValueRef, uint64_t> gaddr;
static const uint64_t FUNC_BASE = 0x400000, MEM_BASE = 0x100000000ull;

struct Frame {
    Func *f; int bb = 0, prev = -1; unsigned ip = 0; std::vector<V> r; std::vector<uint64_t> allocas; int dst = -1, dstn = 0; uint64_t va = 0; int normal = -1;
};
typedef std::shared_ptr<Frame> FP;

struct State {
    std::vector<FP> fr; std::vector<OP> mem;    // mem sorted by address
    uint64_t brk; std::vector<E> pc; std::unordered_set<uint32_t> pcset; ModelP model; std::vector<uint32_t> inputs; std::vector<std::string> reached;
    uint64_t steps = 0; uint32_t forks = 0; const Inst *cinst = nullptr; uint32_t ccount = 0; uint64_t lastSym = 0;
    std::map<uint32_t, uint64_t> fixed;
    Frame &top() { FP &p = fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};

// ---------------------------------------------------------------- options / results
struct Shared { std::atomic<int> tokens; std::atomic<int> stop; volatile double viol_t; };
static Shared *shm, *tokm; static std::string outdir; static FILE *out;
static uint64_t max_steps = 20000000, max_paths = ~0ull; static double max_time = 600, stop_after = 0; static bool show_cov = false, verbose = false; static uint64_t max_values = 5000; static int witness_max = 12;
static double t_start; static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<State *> work; static State *cur;
static uint64_t st_paths = 0, st_insts = 0, st_forks = 0, st_assumed = 0, st_checks = 0, st_errors = 0, st_incomplete = 0, st_merged = 0;
static std::set<std::string> reportedKeys, reachedTags; static int witnesses = 0; static std::vector<pid_t> kids;
static bool g_root = true;

static std::string jesc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char) ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static std::string inputsJ(const State &s, const ModelP &m) {
    std::string r = "[";
    for (size_t i = 0; i < s.inputs.size(); i++) {
        uint32_t v = s.inputs[i]; uint64_t x = v < m->v.size() ? m->v[v] & mask(g_vars[v].w) : 0;
        r += (i ? "," : "") + std::to_string(x);
    }
    return r + "]";
}
static std::string where(const State &s) {
    std::string r;
    for (int i = (int) s.fr.size() - 1, n = 0; i >= 0 && n < 8; i--, n++) {
        const Frame &f = *s.fr[i]; unsigned ip = f.ip;
        int line = ip < f.f->bbs[f.bb].insts.size() ? f.f->bbs[f.bb].insts[ip].line : 0;
        r += (n ? " < " : "") + f.f->name + " (" + f.f->file + ":" + std::to_string(line) + ")";
    }
    return r;
}
static std::string reachedJ(const State &s) { std::string r = "["; for (size_t i = 0; i < s.reached.size(); i++) r += (i ? ",\"" : "\"") + jesc(s.reached[i]) + "\""; return r + "]"; }
static void emit(const std::string &s) { fprintf(out, "%s\n", s.c_str()); fflush(out); }
// kind: assert | memory | uninit | hang | abort ; returns false if this site was already reported
static void report(State &s, const char *kind, const std::string &msg, const ModelP &m) {
    const Frame &f = *s.fr.back(); int line = f.ip < f.f->bbs[f.bb].insts.size() ? f.f->bbs[f.bb].insts[f.ip].line : 0;
    std::string key = std::string(kind) + "|" + msg + "|" + f.f->name + ":" + std::to_string(line);
    st_errors++;
    if (!reportedKeys.insert(key).second || reportedKeys.size() > 40) return;
    if (shm && shm->viol_t == 0) shm->viol_t = now();
    emit("{\"type\":\"violation\",\"kind\":\"" + std::string(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where(s)) + "\",\"key\":\"" + jesc(key) + "\",\"reached\":" + reachedJ(s) + ",\"inputs\":" + inputsJ(s, m) + "}");
}
static void incomplete(State &s, const std::string &msg) {
    st_incomplete++;
    std::string key = "incomplete|" + msg;
    if (!reportedKeys.insert(key).second) return;
    emit("{\"type\":\"incomplete\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where(s)) + "\",\"inputs\":" + (s.model ? inputsJ(s, s.model) : "[]") + "}");
}

struct Kill {};      // terminates the current path

// ---------------------------------------------------------------- memory ops
static int findIdx(const State &s, uint64_t a) {
    size_t lo = 0, hi = s.mem.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m]->addr <= a) lo = m + 1; else hi = m; }
    return (int) lo - 1;
}
static int findObj(const State &s, uint64_t a, uint64_t n) {   // a live object that contains [a, a+n)
    int i = findIdx(s, a);
    if (i < 0) return -1;
    const Obj *o = s.mem[i].p;
    if (o->freed || a - o->addr > o->size || n > o->size - (a - o->addr)) return -1;
    return i;
}
static std::string describe(const State &s, uint64_t a, uint64_t n, bool wr) {
    char b[256]; int i = findIdx(s, a);
    const char *k[] = { "global", "constant", "heap", "stack" };
    if (a < 65536) { snprintf(b, sizeof b, "%s of %llu bytes through a null pointer (0x%llx)", wr ? "write" : "read", (unsigned long long) n, (unsigned long long) a); return b; }
    if (i < 0) { snprintf(b, sizeof b, "%s of %llu bytes at a wild address", wr ? "write" : "read", (unsigned long long) n); return b; }
    const Obj *o = s.mem[i].p;
    if (a - o->addr > o->size + 4096) { snprintf(b, sizeof b, "%s of %llu bytes at a wild address", wr ? "write" : "read", (unsigned long long) n); return b; }
    snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of a%s %s object of %llu bytes", wr ? "write" : "read", (unsigned long long) n, (unsigned long long) (a - o->addr), o->freed ? " freed" : "", k[o->kind], (unsigned long long) o->size);
    return b;
}
static Obj *wobj(State &s, int i) {
    OP &p = s.mem[i];
    if (p->rc > 1) { Obj *n = new Obj(*p.p); n->rc = 0; p = OP(n); }
    return p.p;
}
static uint64_t alloc(State &s, uint64_t size, int kind, bool init, uint64_t align = 16) {
    if (align < 16) align = 16;
    s.brk = (s.brk + align - 1) & ~(align - 1);
    Obj *o = new Obj; o->addr = s.brk; o->size = size; o->kind = kind;
    o->b.assign(size, 0);
    if (!init) o->s.assign(size, UNINIT);
    s.mem.push_back(OP(o));
    uint64_t a = s.brk;
    s.brk += size + 64;
    return a;
}
static void release(State &s, int i) { Obj *o = new Obj; o->addr = s.mem[i]->addr; o->size = s.mem[i]->size; o->kind = s.mem[i]->kind; o->freed = true; s.mem[i] = OP(o); }
static void compact(State &s) {  // stack tombstones
    size_t o = 0; for (size_t i = 0; i < s.mem.size(); i++) if (!(s.mem[i]->freed && s.mem[i]->kind == K_STACK)) { if (o != i) s.mem[o] = std::move(s.mem[i]); o++; }
    s.mem.resize(o);
}
// the i-th input of a path is the same variable on every path: expressions, solver state and cached verdicts are shared
static E inputVar(size_t i, unsigned w) {
    static std::map<std::pair<size_t, unsigned>, E> m; E &e = m[{ i, w }];
    if (!e) { g_vars.push_back({ (uint8_t) w, false }); e = mkSym(w, g_vars.size() - 1); }
    return e;
}
static E newVar(unsigned w, bool uninit) { g_vars.push_back({ (uint8_t) w, uninit }); return mkSym(w, g_vars.size() - 1); }

static V rd(State &s, int i, uint64_t off, unsigned n) {  // n bytes, in bounds
    Obj *o = s.mem[i].p;
    if (o->s.empty()) { uint64_t r = 0; memcpy(&r, &o->b[off], n); return cv(r); }
    bool sym = false, un = false;
    for (unsigned j = 0; j < n; j++) if (o->s[off + j]) { sym = true; if (o->s[off + j] == UNINIT) un = true; }
    if (!sym) { uint64_t r = 0; memcpy(&r, &o->b[off], n); return cv(r); }
    if (un) { o = wobj(s, i); for (unsigned j = 0; j < n; j++) if (o->s[off + j] == UNINIT) o->s[off + j] = newVar(8, true); }
    E r = nullptr;
    for (unsigned j = 0; j < n; j++) { E b = o->s[off + j] ? o->s[off + j] : mkConst(8, o->b[off + j]); r = r ? mkConcat(b, r) : b; }
    return ve(r);
}
static void wr(Obj *o, uint64_t off, unsigned n, V v) {
    if (!v.e) {
        memcpy(&o->b[off], &v.c, n);
        if (!o->s.empty()) for (unsigned j = 0; j < n; j++) o->s[off + j] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned j = 0; j < n; j++) {
        E b = mkExtract(e, j * 8, 8);
        if (isC(b)) { o->s[off + j] = nullptr; o->b[off + j] = b->k; } else o->s[off + j] = b;
    }
}

// ---------------------------------------------------------------- constraints
static void addPC(State &s, E c) {
    if (isC(c)) return;
    if (c->op == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
    if (!s.pcset.insert(c->id).second) return;
    s.pc.push_back(c);
    if (c->op == EQ && isC(c->a) && c->b->op == SYM) s.fixed[c->b->k] = c->a->k;
    else if (c->op == SYM) s.fixed[c->k] = 1;
    else if (c->op == XOR && isC(c->a) && c->b->op == SYM) s.fixed[c->b->k] = 0;
}
static bool hasUninit(E e) { for (uint32_t v : *e->vars) if (g_vars[v].uninit) return true; return false; }
// is cond possibly true under pc? m: a model
static int feasible(State &s, E cond, ModelP &m) {
    if (isC(cond)) { m = s.model; return cond->k; }
    if (s.pcset.count(cond->id)) { m = s.model; return 1; }
    { E n = mkNot(cond); if (s.pcset.count(n->id)) return 0; }
    if (evalE(cond, *s.model)) { g_ss.modelHits++; m = s.model; return 1; }
    bool all = true; for (uint32_t v : *cond->vars) if (!s.fixed.count(v)) { all = false; break; }
    if (all) return 0;   // every variable has one value, and the model gives it
    int r = solve(s.pc, cond, s.model, m);
    if (r < 0) { incomplete(s, "solver gave no verdict within its resource limit"); }
    return r;
}
static State *forkState(State &s) { st_forks++; State *n = new State(s); n->forks++; return n; }

// one concrete value for v on this path; other values are explored by forked states that re-execute the instruction
static uint64_t concretize(State &s, const V &v) {
    if (!v.e) return v.c;
    uint64_t x = evalE(v.e, *s.model);
    E eq = mk(EQ, mkConst(v.e->w, x), v.e);
    if (isC(eq) || s.pcset.count(eq->id)) return x;
    ModelP m; int r = feasible(s, mkNot(eq), m);
    if (r < 0) throw Kill();
    if (r == 1) {
        if (hasUninit(v.e)) report(s, "uninit", "uninitialised value is used as an address, size or target", s.model);
        const Inst *in = &s.fr.back()->f->bbs[s.fr.back()->bb].insts[s.fr.back()->ip];
        State *o = forkState(s);
        o->model = m; addPC(*o, mkNot(eq));
        o->ccount = s.cinst == in ? s.ccount + 1 : 1; o->cinst = in;
        if (o->ccount > max_values) { incomplete(s, "too many values to enumerate"); delete o; }
        else work.push_back(o);
    }
    addPC(s, eq);
    return x;
}
// split on a boolean; the forked state re-executes the current instruction
static bool decide(State &s, E c) {
    if (isC(c)) return c->k;
    bool v = evalE(c, *s.model);
    E other = v ? mkNot(c) : c;
    ModelP m; int r = feasible(s, other, m);
    if (r < 0) throw Kill();
    if (r == 1) {
        State *o = forkState(s); o->model = m; addPC(*o, other); work.push_back(o);
        addPC(s, v ? c : mkNot(c));
    }
    return v;
}

// resolve a symbolic address to one object; out of bounds values are reported
static int resolve(State &s, E addr, uint64_t n, bool wrt) {
    uint64_t a = evalE(addr, *s.model);
    int i = findObj(s, a, n);
    if (i < 0) { report(s, "memory", describe(s, a, n, wrt), s.model); throw Kill(); }
    Obj *o = s.mem[i].p;
    E ok = mk(ULE, mk(SUB, addr, mkConst(64, o->addr)), mkConst(64, o->size - n));
    if (isC(ok)) return i;
    ModelP m; int r = feasible(s, mkNot(ok), m);
    if (r < 0) throw Kill();
    if (r == 1) {
        uint64_t a2 = evalE(addr, *m);
        // other objects or an error: a state that re-executes this access
        State *x = forkState(s); x->model = m; addPC(*x, mkNot(ok));
        if (findObj(s, a2, n) >= 0) work.push_back(x);
        else {
            report(*x, "memory", describe(s, a2, n, wrt) + " (symbolic address)", m);
            // is there any other valid object?
            delete x;
        }
        addPC(s, ok);
    }
    return findObj(s, a, n);
}
static void offsets(E off, uint64_t size, uint64_t n, std::vector<uint64_t> &out, size_t limit) {
    uint64_t lo = off->lo, hi = std::min(off->hi, size - n);
    uint64_t base = 0, k = 1; E x = off; uint64_t xlo, xhi;
    if (x->op == ADD && isC(x->a)) { base = x->a->k; x = x->b; }
    if (x->op == MUL && isC(x->a)) { k = x->a->k; x = x->b; }
    else if (x->op == CONCAT && isC(x->b) && x->b->k == 0) { k = 1ull << x->b->w; x = x->a; }
    else if (x->op == CONCAT && isC(x->a) && x->a->k == 0 && x->b->op == CONCAT) {
        // zext(concat(y, 0))
        E y = x; unsigned tz = y->pm ? __builtin_ctzll(y->pm) : 0; k = 1ull << tz; x = nullptr; xlo = y->lo >> tz; xhi = y->hi >> tz;
    }
    if (x) { xlo = x->lo; xhi = x->hi; }
    if (k > 1 || base) {
        if (xhi - xlo > (1ull << 40) / k) { k = 1; base = 0; }
        else {
            for (uint64_t v = xlo; v <= xhi; v++) {
                uint64_t o = base + v * k;
                if (o <= size - n) out.push_back(o);
                if (out.size() > limit || v - xlo > 4 * limit) { out.clear(); return; }
            }
            std::sort(out.begin(), out.end());
            return;
        }
    }
    if (hi < lo || hi - lo > limit) return;
    for (uint64_t v = lo; v <= hi; v++) if ((v & ~off->pm) == 0) out.push_back(v);
}
static V ldAt(State &s, V addr, unsigned n);
static bool enum_addr;   // --enum: symbolic addresses in writable objects are enumerated (heap objects)
static V load(State &s, V addr, unsigned n) {
    if (!addr.e) {
        int i = findObj(s, addr.c, n);
        if (i < 0) { report(s, "memory", describe(s, addr.c, n, false), s.model); throw Kill(); }
        return rd(s, i, addr.c - s.mem[i]->addr, n);
    }
    return ldAt(s, addr, n);
}
static V ldAt(State &s, V addr, unsigned n) {
    E e = addr.e;
    // an address that is a choice of two concrete addresses, both valid
    if (e->op == ITE && isC(e->b) && isC(e->c)) {
        int i = findObj(s, e->b->k, n), j = findObj(s, e->c->k, n);
        if (i >= 0 && j >= 0) { V x = rd(s, i, e->b->k - s.mem[i]->addr, n), y = rd(s, j, e->c->k - s.mem[j]->addr, n); return ve(mkIte(e->a, toE(x, n * 8), toE(y, n * 8))); }
    }
    int i = resolve(s, e, n, false);
    Obj *o = s.mem[i].p; E off = mk(SUB, e, mkConst(64, o->addr));
    if (hasUninit(e)) report(s, "uninit", "uninitialised value is used as an address", s.model);
    std::vector<uint64_t> cand; if (!enum_addr || o->kind != K_HEAP) offsets(off, o->size, n, cand, 1024);
    if (cand.empty()) { uint64_t a = concretize(s, addr); return rd(s, findObj(s, a, n), a - o->addr, n); }
    if (!o->s.empty()) { // do not create variables for uninitialised bytes that no index reaches
        std::vector<uint64_t> c2;
        for (uint64_t c : cand) {
            bool un = false; for (unsigned j = 0; j < n; j++) un |= o->s[c + j] == UNINIT;
            if (!un) { c2.push_back(c); continue; }
            ModelP m; if (feasible(s, mk(EQ, mkConst(64, c), off), m) != 0) c2.push_back(c);
        }
        cand.swap(c2);
        if (cand.empty()) throw Kill();
    }
    std::vector<E> vals; for (uint64_t c : cand) { vals.push_back(toE(rd(s, i, c, n), n * 8)); }
    std::function<E(size_t, size_t)> tree = [&](size_t l, size_t h) -> E {  // [l, h)
        bool same = true; for (size_t q = l + 1; q < h; q++) if (vals[q] != vals[l]) { same = false; break; }
        if (same) return vals[l];
        size_t m = (l + h) / 2;
        return mkIte(mk(ULT, off, mkConst(64, cand[m])), tree(l, m), tree(m, h));
    };
    return ve(tree(0, cand.size()));
}
static void store(State &s, V addr, unsigned n, V v) {
    if (!addr.e) {
        int i = findObj(s, addr.c, n);
        if (i < 0 || s.mem[i]->kind == K_CONST) { report(s, "memory", describe(s, addr.c, n, true), s.model); throw Kill(); }
        wr(wobj(s, i), addr.c - s.mem[i]->addr, n, v);
        return;
    }
    E e = addr.e;
    if (e->op == ITE && isC(e->b) && isC(e->c)) {
        int i = findObj(s, e->b->k, n), j = findObj(s, e->c->k, n);
        if (i >= 0 && j >= 0 && s.mem[i]->kind != K_CONST && s.mem[j]->kind != K_CONST) {
            uint64_t oi = e->b->k - s.mem[i]->addr, oj = e->c->k - s.mem[j]->addr;
            V x = rd(s, i, oi, n); wr(wobj(s, i), oi, n, ve(mkIte(e->a, toE(v, n * 8), toE(x, n * 8))));
            V y = rd(s, j, oj, n); wr(wobj(s, j), oj, n, ve(mkIte(e->a, toE(y, n * 8), toE(v, n * 8))));
            return;
        }
    }
    int i = resolve(s, e, n, true);
    if (s.mem[i]->kind == K_CONST) { report(s, "memory", "write to a constant", s.model); throw Kill(); }
    E off = mk(SUB, e, mkConst(64, s.mem[i]->addr));
    if (hasUninit(e)) report(s, "uninit", "uninitialised value is used as an address", s.model);
    std::vector<uint64_t> cand; if (!enum_addr || s.mem[i]->kind != K_HEAP) offsets(off, s.mem[i]->size, n, cand, 256);
    // bytes not yet written would need a value: enumerate instead
    bool un = false;
    if (!cand.empty() && !s.mem[i]->s.empty()) for (uint64_t c : cand) for (unsigned j = 0; j < n; j++) un |= s.mem[i]->s[c + j] == UNINIT;
    if (cand.empty() || un) { uint64_t a = concretize(s, addr); int q = findObj(s, a, n); wr(wobj(s, q), a - s.mem[q]->addr, n, v); return; }
    E val = toE(v, n * 8);
    for (uint64_t c : cand) {
        E oldv = toE(rd(s, i, c, n), n * 8);
        wr(wobj(s, i), c, n, ve(mkIte(mk(EQ, mkConst(64, c), off), val, oldv)));
    }
}

// ---------------------------------------------------------------- translation
static std::map<LLVMValueRef, int> *regmap; static std::map<LLVMBasicBlockRef, int> *bbmap;
static void flattenConst(LLVMValueRef v, std::vector<uint64_t> &out);
static bool constVal(LLVMValueRef v, uint64_t &r) {
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsAConstantInt(v)) { if (LLVMGetIntTypeWidth(t) > 64) { die("wide integer constant i%u", LLVMGetIntTypeWidth(t)); } r = LLVMConstIntGetZExtValue(v); return true; }
    if (LLVMIsAFunction(v)) { r = fmap.at(v)->addr; return true; }
    if (LLVMIsAGlobalVariable(v)) { auto it = gaddr.find(v); if (it == gaddr.end()) die("no address for a global"); r = it->second; return true; }
    if (LLVMIsAGlobalAlias(v)) return constVal(LLVMAliasGetAliasee(v), r);
    if (LLVMIsAConstantPointerNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v) || LLVMIsNull(v)) { r = 0; return true; }
    if (LLVMIsAConstantFP(v)) {
        LLVMBool li; double d = LLVMConstRealGetDouble(v, &li);
        if (LLVMGetTypeKind(t) == LLVMFloatTypeKind) { float f = d; uint32_t u; memcpy(&u, &f, 4); r = u; }
        else memcpy(&r, &d, 8);
        return true;
    }
    if (LLVMIsAConstantExpr(v)) {
        unsigned w = bits(t); uint64_t a, b;
        switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: {
            constVal(LLVMGetOperand(v, 0), r);
            LLVMTypeRef ty = LLVMGetGEPSourceElementType(v);
            for (int i = 1; i < LLVMGetNumOperands(v); i++) {
                uint64_t idx; LLVMValueRef o = LLVMGetOperand(v, i); constVal(o, idx); idx = sx(idx, bits(LLVMTypeOf(o)));
                if (i == 1) r += idx * LLVMABISizeOfType(TD, ty);
                else if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) { r += LLVMOffsetOfElement(TD, ty, idx); ty = LLVMStructGetTypeAtIndex(ty, idx); }
                else { ty = LLVMGetElementType(ty); r += idx * LLVMABISizeOfType(TD, ty); }
            }
            return true; }
        case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMTrunc: case LLVMZExt: case LLVMAddrSpaceCast:
            constVal(LLVMGetOperand(v, 0), r); r &= mask(w); return true;
        case LLVMSub: constVal(LLVMGetOperand(v, 0), a); constVal(LLVMGetOperand(v, 1), b); r = (a - b) & mask(w); return true;
        case LLVMAdd: constVal(LLVMGetOperand(v, 0), a); constVal(LLVMGetOperand(v, 1), b); r = (a + b) & mask(w); return true;
        case LLVMAnd: constVal(LLVMGetOperand(v, 0), a); constVal(LLVMGetOperand(v, 1), b); r = a & b; return true;
        case LLVMICmp: constVal(LLVMGetOperand(v, 0), a); constVal(LLVMGetOperand(v, 1), b);
            switch (LLVMGetICmpPredicate(v)) { case LLVMIntEQ: r = a == b; return true; case LLVMIntNE: r = a != b; return true; default: break; }
            die("constant icmp");
        default: die("constant expression opcode %d", LLVMGetConstOpcode(v));
        }
    }
    return false;
}
static void flattenConst(LLVMValueRef v, std::vector<uint64_t> &o) {
    LLVMTypeRef t = LLVMTypeOf(v);
    if (!isAgg(t)) { uint64_t r; if (!constVal(v, r)) die("constant"); o.push_back(r); return; }
    int n = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : LLVMGetArrayLength(t);
    if (LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) { for (int i = 0, k = nleaves(t); i < k; i++) o.push_back(0); return; }
    for (int i = 0; i < n; i++) { LLVMValueRef e = LLVMGetAggregateElement(v, i); flattenConst(e, o); }
}
static void initConst(LLVMValueRef v, uint8_t *p) {
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
    if (LLVMIsAConstantDataArray(v)) {
        LLVMTypeRef et = LLVMGetElementType(t); uint64_t sz = LLVMABISizeOfType(TD, et); unsigned n = LLVMGetArrayLength(t);
        if (sz == 1) { size_t l; const char *d = LLVMGetAsString(v, &l); memcpy(p, d, l); return; }
        for (unsigned i = 0; i < n; i++) { uint64_t x; constVal(LLVMGetElementAsConstant(v, i), x); memcpy(p + i * sz, &x, sz); }
        return;
    }
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) initConst(LLVMGetOperand(v, i), p + LLVMOffsetOfElement(TD, t, i)); return; }
    if (LLVMGetTypeKind(t) == LLVMArrayTypeKind) { unsigned n = LLVMGetArrayLength(t); uint64_t sz = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (unsigned i = 0; i < n; i++) initConst(LLVMGetOperand(v, i), p + i * sz); return; }
    uint64_t x; if (!constVal(v, x)) die("initialiser"); memcpy(p, &x, std::min<uint64_t>(8, LLVMStoreSizeOfType(TD, t)));
}

static Opnd opnd(LLVMValueRef v) {
    auto it = regmap->find(v);
    if (it != regmap->end()) return Opnd{ it->second, 0 };
    uint64_t r;
    if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMMetadataTypeKind) return Opnd{ -1, 0 };
    if (LLVMIsAInlineAsm(v)) return Opnd{ -1, 0 };
    if (!constVal(v, r)) { char *s = LLVMPrintValueToString(v); die("operand %s", s); }
    return Opnd{ -1, r };
}
static std::vector<Opnd> opnds(LLVMValueRef v) {
    std::vector<Opnd> r; LLVMTypeRef t = LLVMTypeOf(v);
    if (!isAgg(t)) { r.push_back(opnd(v)); return r; }
    auto it = regmap->find(v); int n = nleaves(t);
    if (it != regmap->end()) { for (int i = 0; i < n; i++) r.push_back(Opnd{ it->second + i, 0 }); return r; }
    std::vector<uint64_t> c; flattenConst(v, c); for (uint64_t x : c) r.push_back(Opnd{ -1, x });
    return r;
}
static int intrinsicOf(const std::string &n) {
    auto it = intrNames.find(n); if (it != intrNames.end()) return it->second;
    auto sw = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (sw("llvm.dbg.") || sw("llvm.lifetime.") || sw("llvm.assume") || sw("llvm.va_end") || sw("llvm.stackrestore") || sw("llvm.prefetch") || sw("llvm.donothing") || sw("llvm.experimental.noalias") || sw("llvm.invariant")) return I_IGNORE;
    if (sw("llvm.memcpy.")) return I_MEMCPY; if (sw("llvm.memmove.")) return I_MEMMOVE; if (sw("llvm.memset.")) return I_MEMSET;
    if (sw("llvm.bswap.")) return I_BSWAP; if (sw("llvm.ctlz.")) return I_CTLZ; if (sw("llvm.cttz.")) return I_CTTZ; if (sw("llvm.ctpop.")) return I_CTPOP; if (sw("llvm.bitreverse.")) return I_BITREV;
    if (sw("llvm.uadd.with")) return I_UADDO; if (sw("llvm.sadd.with")) return I_SADDO; if (sw("llvm.usub.with")) return I_USUBO; if (sw("llvm.ssub.with")) return I_SSUBO; if (sw("llvm.umul.with")) return I_UMULO; if (sw("llvm.smul.with")) return I_SMULO;
    if (sw("llvm.umin.")) return I_UMIN; if (sw("llvm.umax.")) return I_UMAX; if (sw("llvm.smin.")) return I_SMIN; if (sw("llvm.smax.")) return I_SMAX; if (sw("llvm.abs.")) return I_ABS;
    if (sw("llvm.fshl.")) return I_FSHL; if (sw("llvm.fshr.")) return I_FSHR; if (sw("llvm.expect")) return I_EXPECT; if (sw("llvm.objectsize")) return I_OBJSIZE;
    if (sw("llvm.usub.sat")) return I_USUBSAT; if (sw("llvm.uadd.sat")) return I_UADDSAT; if (sw("llvm.va_start")) return I_VASTART; if (sw("llvm.va_copy")) return I_VACOPY; if (sw("llvm.stacksave")) return I_STACKSAVE;
    if (sw("llvm.trap") || sw("llvm.debugtrap") || sw("llvm.ubsantrap")) return I_TRAP; if (sw("llvm.is.constant")) return I_ISCONST; if (sw("llvm.fabs.")) return I_FABS;
    if (sw("llvm.ptrmask")) return I_NONE;
    return I_NONE;
}

static void translate(Func *f) {
    std::map<LLVMValueRef, int> rm; std::map<LLVMBasicBlockRef, int> bm; regmap = &rm; bbmap = &bm;
    LLVMValueRef fn = f->v; int nr = 0;
    f->nargs = LLVMCountParams(fn);
    unsigned kid = LLVMGetEnumAttributeKindForName("byval", 5);
    for (int i = 0; i < f->nargs; i++) {
        LLVMValueRef p = LLVMGetParam(fn, i); rm[p] = nr; f->argreg.push_back(nr); int n = nleaves(LLVMTypeOf(p)); f->argn.push_back(n); nr += n;
        LLVMAttributeRef at = LLVMGetEnumAttributeAtIndex(fn, i + 1, kid);
        f->byval.push_back(at ? LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0);
    }
    int nb = 0;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) {
        bm[b] = nb++;
        for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            LLVMTypeRef t = LLVMTypeOf(i);
            if (LLVMGetTypeKind(t) == LLVMVoidTypeKind) continue;
            rm[i] = nr; nr += nleaves(t);
        }
    }
    f->nregs = nr; f->bbs.resize(nb);
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) {
        BB &bb = f->bbs[bm[b]];
        for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            Inst in; in.op = LLVMGetInstructionOpcode(i); LLVMTypeRef t = LLVMTypeOf(i);
            in.line = LLVMGetDebugLocLine(i);
            auto it = rm.find(i); if (it != rm.end()) in.dst = it->second;
            in.w = isAgg(t) ? 0 : bits(t); in.n = LLVMGetTypeKind(t) == LLVMVoidTypeKind ? 0 : nleaves(t);
            auto plain = [&]() { for (int k = 0; k < LLVMGetNumOperands(i); k++) { LLVMValueRef o = LLVMGetOperand(i, k); in.ops.push_back(opnd(o)); in.opw.push_back(bits(LLVMTypeOf(o))); } };
            if (LLVMGetTypeKind(t) == LLVMVectorTypeKind || LLVMGetTypeKind(t) == LLVMScalableVectorTypeKind || in.w > 64) { in.op = -1; char *s = LLVMPrintValueToString(i); in.name = s; LLVMDisposeMessage(s); bb.insts.push_back(in); continue; }
            switch (in.op) {
            case LLVMRet: if (LLVMGetNumOperands(i)) in.agg.push_back(opnds(LLVMGetOperand(i, 0))); break;
            case LLVMBr:
                if (LLVMIsConditional(i)) in.ops.push_back(opnd(LLVMGetCondition(i)));
                for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) in.bbs.push_back(bm[LLVMGetSuccessor(i, k)]);
                break;
            case LLVMSwitch: {
                LLVMValueRef c = LLVMGetOperand(i, 0); in.w2 = bits(LLVMTypeOf(c)); in.ops.push_back(opnd(c));
                in.bbs.push_back(bm[LLVMGetSwitchDefaultDest(i)]);
                for (int k = 2; k + 1 < LLVMGetNumOperands(i); k += 2) { uint64_t x; constVal(LLVMGetOperand(i, k), x); in.imm.push_back(x); in.bbs.push_back(bm[LLVMValueAsBasicBlock(LLVMGetOperand(i, k + 1))]); }
                break; }
            case LLVMUnreachable: break;
            case LLVMPHI:
                bb.nphi++;
                for (unsigned k = 0; k < LLVMCountIncoming(i); k++) { in.agg.push_back(opnds(LLVMGetIncomingValue(i, k))); in.bbs.push_back(bm[LLVMGetIncomingBlock(i, k)]); }
                break;
            case LLVMAlloca: { in.imm.push_back(LLVMABISizeOfType(TD, LLVMGetAllocatedType(i))); in.imm.push_back(LLVMGetAlignment(i)); plain(); break; }
            case LLVMLoad: case LLVMStore: {
                LLVMValueRef p = LLVMGetOperand(i, in.op == LLVMLoad ? 0 : 1); LLVMTypeRef vt = in.op == LLVMLoad ? t : LLVMTypeOf(LLVMGetOperand(i, 0));
                in.ops.push_back(opnd(p));
                if (in.op == LLVMStore) in.agg.push_back(opnds(LLVMGetOperand(i, 0)));
                std::vector<std::pair<LLVMTypeRef, uint64_t>> l; leaves(vt, 0, l);
                for (auto &x : l) { if (bits(x.first) == 0 || bits(x.first) > 64) { in.op = -1; char *s = LLVMPrintValueToString(i); in.name = s; LLVMDisposeMessage(s); break; } in.imm.push_back(x.second); in.leafw.push_back(bits(x.first)); }
                break; }
            case LLVMGetElementPtr: {
                in.ops.push_back(opnd(LLVMGetOperand(i, 0)));
                LLVMTypeRef ty = LLVMGetGEPSourceElementType(i); uint64_t off = 0;
                for (int k = 1; k < LLVMGetNumOperands(i); k++) {
                    LLVMValueRef o = LLVMGetOperand(i, k); uint64_t scale, idx;
                    if (k > 1 && LLVMGetTypeKind(ty) == LLVMStructTypeKind) { constVal(o, idx); off += LLVMOffsetOfElement(TD, ty, idx); ty = LLVMStructGetTypeAtIndex(ty, idx); continue; }
                    if (k > 1) ty = LLVMGetElementType(ty);
                    scale = LLVMABISizeOfType(TD, ty);
                    if (LLVMIsAConstantInt(o)) { constVal(o, idx); off += scale * sx(idx, bits(LLVMTypeOf(o))); }
                    else { in.ops.push_back(opnd(o)); in.imm.push_back(scale); in.opw.push_back(bits(LLVMTypeOf(o))); }
                }
                in.imm.push_back(off);
                break; }
            case LLVMICmp: in.pred = LLVMGetICmpPredicate(i); in.w2 = bits(LLVMTypeOf(LLVMGetOperand(i, 0))); plain(); break;
            case LLVMFCmp: in.pred = LLVMGetFCmpPredicate(i); in.w2 = bits(LLVMTypeOf(LLVMGetOperand(i, 0))); plain(); break;
            case LLVMExtractValue: case LLVMInsertValue: {
                LLVMValueRef a = LLVMGetOperand(i, 0); LLVMTypeRef ty = LLVMTypeOf(a); int pos = 0;
                const unsigned *ix = LLVMGetIndices(i);
                for (unsigned k = 0; k < LLVMGetNumIndices(i); k++) {
                    if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) pos += nleaves(LLVMStructGetTypeAtIndex(ty, q)); ty = LLVMStructGetTypeAtIndex(ty, ix[k]); }
                    else { ty = LLVMGetElementType(ty); pos += ix[k] * nleaves(ty); }
                }
                in.imm.push_back(pos); in.imm.push_back(nleaves(ty));
                in.agg.push_back(opnds(a)); if (in.op == LLVMInsertValue) in.agg.push_back(opnds(LLVMGetOperand(i, 1)));
                break; }
            case LLVMSelect: in.ops.push_back(opnd(LLVMGetOperand(i, 0))); in.agg.push_back(opnds(LLVMGetOperand(i, 1))); in.agg.push_back(opnds(LLVMGetOperand(i, 2))); break;
            case LLVMCall: case LLVMInvoke: {
                LLVMValueRef cal = LLVMGetCalledValue(i); unsigned n = LLVMGetNumArgOperands(i);
                if (LLVMIsAGlobalAlias(cal)) cal = LLVMAliasGetAliasee(cal);
                if (LLVMIsAInlineAsm(cal)) { in.intr = I_IGNORE; if (in.dst >= 0) { in.op = -1; in.name = "inline asm"; } }
                in.ops.push_back(opnd(cal));
                if (LLVMIsAFunction(cal)) { Func *cf = fmap.at(cal); in.name = cf->name; if (cf->decl) in.intr = cf->intr; }
                if (in.intr != I_IGNORE) for (unsigned k = 0; k < n; k++) {
                    LLVMValueRef a = LLVMGetOperand(i, k); in.agg.push_back(opnds(a)); in.opw.push_back(isAgg(LLVMTypeOf(a)) ? 0 : bits(LLVMTypeOf(a)));
                    if (!isAgg(LLVMTypeOf(a)) && bits(LLVMTypeOf(a)) > 64) { in.op = -1; in.name = "wide argument"; }
                }
                if (LLVMGetInstructionOpcode(i) == LLVMInvoke) { in.bbs.push_back(bm[LLVMGetNormalDest(i)]); in.bbs.push_back(bm[LLVMGetUnwindDest(i)]); }
                break; }
            case LLVMAtomicRMW: in.pred = LLVMGetAtomicRMWBinOp(i); in.w2 = bits(LLVMTypeOf(LLVMGetOperand(i, 1))); plain(); break;
            case LLVMAtomicCmpXchg: in.w2 = bits(LLVMTypeOf(LLVMGetOperand(i, 1))); plain(); break;
            case LLVMFence: break;
            case LLVMLandingPad: case LLVMResume: break;
            default:
                plain(); if (!in.opw.empty()) in.w2 = in.opw[0];
                for (unsigned x : in.opw) if (x > 64) { in.op = -1; in.name = "wide operand"; }
                break;
            }
            bb.insts.push_back(std::move(in));
        }
    }
}

static State *load(const char *path) {
    LLVMMemoryBufferRef mb; char *err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) die("%s", err);
    if (LLVMParseIRInContext(LLVMGetGlobalContext(), mb, &M, &err)) die("%s", err);
    TD = LLVMCreateTargetData(LLVMGetDataLayoutStr(M));
    uint64_t a = FUNC_BASE;
    for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
        Func *x = new Func; size_t l; x->name = LLVMGetValueName2(f, &l); x->v = f; x->addr = a; a += 16;
        x->decl = LLVMIsDeclaration(f); x->vararg = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
        if (x->decl) x->intr = intrinsicOf(x->name);
        LLVMMetadataRef sp = LLVMGetSubprogram(f);
        if (sp) { unsigned n; LLVMMetadataRef fl = LLVMDIScopeGetFile(sp); if (fl) { const char *s = LLVMDIFileGetFilename(fl, &n); x->file.assign(s, n); } x->line = LLVMDISubprogramGetLine(sp); }
        funcs.push_back(x); fmap[f] = x; faddr[x->addr] = x;
    }
    State *s = new State; s->brk = MEM_BASE; s->model = newModel({});
    std::vector<std::pair<LLVMValueRef, int>> gl;
    for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        LLVMTypeRef t = LLVMGlobalGetValueType(g); uint64_t sz = LLVMABISizeOfType(TD, t);
        uint64_t ad = alloc(*s, sz, LLVMIsGlobalConstant(g) ? K_CONST : K_GLOBAL, true, LLVMGetAlignment(g));
        gaddr[g] = ad; gl.push_back({ g, (int) s->mem.size() - 1 });
        if (LLVMIsDeclaration(g)) { size_t l; std::string n = LLVMGetValueName2(g, &l); if (n != "stdout" && n != "stderr") { fprintf(stderr, "vfx: undefined global %s\n", n.c_str()); emit("{\"type\":\"incomplete\",\"msg\":\"undefined global " + n + "\",\"where\":\"\",\"inputs\":[]}"); } }
    }
    for (auto &p : gl) { LLVMValueRef in = LLVMGetInitializer(p.first); if (in && s->mem[p.second]->size) initConst(in, s->mem[p.second]->b.data()); }
    for (Func *f : funcs) if (!f->decl) translate(f);
    return s;
}

// ---------------------------------------------------------------- execution
static inline V get(const Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : cv(o.c); }
static void enter(State &s, Func *f, const std::vector<std::vector<V>> &args, int dst, int dstn, const std::vector<unsigned> &argw, int normal) {
    FP p = std::make_shared<Frame>(); p->f = f; p->r.assign(f->nregs, V{ nullptr, 0 }); p->dst = dst; p->dstn = dstn; p->normal = normal;
    f->executed = true; f->bbs[0].covered = true;
    if ((int) args.size() < f->nargs) die("call of %s with too few arguments", f->name.c_str());
    if (s.fr.size() > 400) { report(s, "hang", "unbounded recursion", s.model); throw Kill(); }
    for (int i = 0; i < f->nargs; i++) {
        if (f->byval[i]) {
            uint64_t a = alloc(s, f->byval[i], K_STACK, true); int d = s.mem.size() - 1; p->allocas.push_back(a);
            uint64_t src = args[i][0].c; int k = findObj(s, src, f->byval[i]); if (k < 0) die("byval");
            Obj *o = s.mem[d].p; Obj *q = s.mem[k].p; uint64_t so = src - q->addr;
            memcpy(o->b.data(), &q->b[so], f->byval[i]);
            if (!q->s.empty()) o->s.assign(q->s.begin() + so, q->s.begin() + so + f->byval[i]);
            p->r[f->argreg[i]] = cv(a);
        } else for (size_t k = 0; k < args[i].size() && (int) k < f->argn[i]; k++) p->r[f->argreg[i] + k] = args[i][k];
    }
    if (f->vararg) {
        size_t n = 0; for (size_t i = f->nargs; i < args.size(); i++) n += args[i].size();
        p->va = alloc(s, n * 8, K_STACK, true); p->allocas.push_back(p->va); int d = s.mem.size() - 1; size_t k = 0;
        for (size_t i = f->nargs; i < args.size(); i++) for (auto &v : args[i]) { V x = v; if (x.e && x.e->w < 64) x = ve(mkZExt(x.e, 64)); wr(wobj(s, d), k++ * 8, 8, x); }
    }
    s.fr.push_back(p);
}
static void popFrame(State &s) {
    FP p = s.fr.back(); s.fr.pop_back();
    for (uint64_t a : p->allocas) { int i = findIdx(s, a); if (i >= 0 && s.mem[i]->addr == a) release(s, i); }
    if (!p->allocas.empty()) { while (!s.mem.empty() && s.mem.back()->freed && s.mem.back()->kind == K_STACK) s.mem.pop_back(); static unsigned c; if ((++c & 255) == 0) compact(s); }
}
static void jump(State &s, int to) {
    Frame &f = s.top(); f.prev = f.bb; f.bb = to; f.ip = 0; BB &b = f.f->bbs[to]; b.covered = true;
    if (b.nphi) {
        std::vector<V> tmp;
        for (int i = 0; i < b.nphi; i++) {
            Inst &in = b.insts[i]; size_t k = 0; while (k < in.bbs.size() && in.bbs[k] != f.prev) k++;
            if (k == in.bbs.size()) die("phi");
            for (auto &o : in.agg[k]) tmp.push_back(get(f, o));
        }
        size_t q = 0;
        for (int i = 0; i < b.nphi; i++) { Inst &in = b.insts[i]; for (int k = 0; k < in.n; k++) f.r[in.dst + k] = tmp[q++]; }
        f.ip = b.nphi;
    }
}
static std::string cstr(State &s, uint64_t a) { std::string r; for (int i = 0; i < 300; i++) { int k = findObj(s, a + i, 1); if (k < 0) break; char c = s.mem[k]->b[a + i - s.mem[k]->addr]; if (!c) break; r += c; } return r; }
static double asD(uint64_t u, unsigned w) { if (w == 32) { float f; uint32_t x = u; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &u, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t u; memcpy(&u, &d, 8); return u; }
static void pathEnd(State &s) {
    st_paths++;
    bool fresh = false; for (auto &t : s.reached) if (reachedTags.insert(t).second) fresh = true;
    if (fresh || witnesses < witness_max) { if (!fresh) witnesses++; emit("{\"type\":\"path\",\"reached\":" + reachedJ(s) + ",\"inputs\":" + inputsJ(s, s.model) + "}"); }
}
static void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (n == 0) return;
    int si = findObj(s, src, n); if (si < 0) { report(s, "memory", describe(s, src, n, false) + " (memory copy)", s.model); throw Kill(); }
    int di = findObj(s, d, n); if (di < 0 || s.mem[di]->kind == K_CONST) { report(s, "memory", describe(s, d, n, true) + " (memory copy)", s.model); throw Kill(); }
    uint64_t so = src - s.mem[si]->addr, dof = d - s.mem[di]->addr;
    Obj *o = wobj(s, di); Obj *q = s.mem[si].p;
    if (q->s.empty() && o->s.empty()) { memmove(&o->b[dof], &q->b[so], n); return; }
    std::vector<uint8_t> tb(q->b.begin() + so, q->b.begin() + so + n); std::vector<E> ts; if (!q->s.empty()) ts.assign(q->s.begin() + so, q->s.begin() + so + n);
    memcpy(&o->b[dof], tb.data(), n);
    if (ts.empty()) { std::fill(o->s.begin() + dof, o->s.begin() + dof + n, nullptr); }
    else { if (o->s.empty()) o->s.assign(o->size, nullptr); std::copy(ts.begin(), ts.end(), o->s.begin() + dof); }
}
static E minmax(E a, E b, Op lt, bool mn) { return mkIte(mk(lt, a, b), mn ? a : b, mn ? b : a); }

// returns true when the instruction pointer has to be advanced
static bool intrinsic(State &s, Frame &f, const Inst &in, int id, std::vector<std::vector<V>> &a) {
    auto A = [&](int i) -> V & { return a[i][0]; };
    auto W = [&](int i) { return in.opw[i]; };
    auto set = [&](V v) { if (in.dst >= 0) f.r[in.dst] = v; };
    switch (id) {
    case I_IGNORE: case I_TRAP: if (id == I_TRAP) { report(s, "abort", "trap", s.model); throw Kill(); } return true;
    case I_SYM8: case I_SYM16: case I_SYM32: case I_SYM64: {
        unsigned w = id == I_SYM8 ? 8 : id == I_SYM16 ? 16 : id == I_SYM32 ? 32 : 64;
        E v = inputVar(s.inputs.size(), w); s.inputs.push_back(v->k); set(V{ v, 0 }); return true; }
    case I_ASSUME: {
        E c = A(0).e ? mkNot(mk(EQ, A(0).e, mkConst(W(0), 0))) : mkConst(1, A(0).c != 0);
        if (isC(c)) { if (!c->k) { st_assumed++; throw Kill(); } return true; }
        ModelP m; int r = feasible(s, c, m);
        if (r < 0) throw Kill();
        if (r == 0) { st_assumed++; throw Kill(); }
        s.model = m; addPC(s, c); return true; }
    case I_CHECK: {
        st_checks++;
        E c = A(0).e ? mkNot(mk(EQ, A(0).e, mkConst(W(0), 0))) : mkConst(1, A(0).c != 0);
        if (isC(c)) { if (!c->k) { report(s, "assert", cstr(s, A(1).c), s.model); throw Kill(); } return true; }
        ModelP m; int r = feasible(s, mkNot(c), m);
        if (r == 1) { report(s, "assert", cstr(s, A(1).c), m); r = feasible(s, c, m); if (r != 1) throw Kill(); s.model = m; }
        else if (r < 0) return true;
        addPC(s, c); return true; }
    case I_REACHED: s.reached.push_back(cstr(s, A(0).c)); return true;
    case I_PRINT: if (verbose) { fprintf(stderr, "[print] %s = %s\n", cstr(s, A(0).c).c_str(), A(1).e ? show(A(1).e).c_str() : std::to_string(A(1).c).c_str()); } return true;
    case I_MALLOC: case I_CALLOC: {
        uint64_t n = concretize(s, A(0)); if (id == I_CALLOC) { uint64_t k = concretize(s, A(1)); if (k && n > (1ull << 32) / k) { set(cv(0)); return true; } n *= k; }
        if (n > (64u << 20)) { if (in.name == "vf_malloc") { report(s, "memory", "allocation of more than 64 MB", s.model); throw Kill(); } set(cv(0)); return true; }
        set(cv(alloc(s, n, K_HEAP, id == I_CALLOC))); return true; }
    case I_MEMALIGN: { uint64_t al = concretize(s, A(0)), n = concretize(s, A(1)); set(cv(alloc(s, n, K_HEAP, false, al))); return true; }
    case I_FREE: {
        uint64_t p = concretize(s, A(0)); if (!p) return true;
        int i = findIdx(s, p);
        if (i < 0 || s.mem[i]->addr != p || s.mem[i]->freed || s.mem[i]->kind != K_HEAP) { report(s, "memory", i >= 0 && s.mem[i]->addr == p && s.mem[i]->freed ? "double free" : "free of a pointer that was not allocated", s.model); throw Kill(); }
        release(s, i); return true; }
    case I_MEMCPY: case I_MEMMOVE: {
        uint64_t n = concretize(s, A(2)); if (n == 0) { set(A(0)); return true; }
        uint64_t d = concretize(s, A(0)), q = concretize(s, A(1));
        copyMem(s, d, q, n); set(cv(d)); return true; }
    case I_MEMSET: {
        uint64_t n = concretize(s, A(2)); if (n == 0) { set(A(0)); return true; }
        uint64_t d = concretize(s, A(0)); int i = findObj(s, d, n);
        if (i < 0 || s.mem[i]->kind == K_CONST) { report(s, "memory", describe(s, d, n, true) + " (memset)", s.model); throw Kill(); }
        Obj *o = wobj(s, i); uint64_t off = d - o->addr; V v = A(1); if (v.e) { E b = mkExtract(v.e, 0, 8); v = ve(b); } else v.c &= 255;
        if (!v.e) { memset(&o->b[off], v.c, n); if (!o->s.empty()) { if (off == 0 && n == o->size) o->s.clear(); else std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); } }
        else for (uint64_t k = 0; k < n; k++) wr(o, off + k, 1, v);
        set(cv(d)); return true; }
    case I_MEMCMP: {
        uint64_t n = concretize(s, A(2)); E r = mkConst(32, 0);
        if (n == 0) { set(cv(0)); return true; }
        uint64_t p = concretize(s, A(0)), q = concretize(s, A(1));
        int i = findObj(s, p, n), j = findObj(s, q, n);
        if (i < 0) { report(s, "memory", describe(s, p, n, false) + " (memcmp)", s.model); throw Kill(); }
        if (j < 0) { report(s, "memory", describe(s, q, n, false) + " (memcmp)", s.model); throw Kill(); }
        uint64_t po = p - s.mem[i]->addr, qo = q - s.mem[j]->addr;
        for (uint64_t k = n; k-- > 0;) {
            E x = toE(rd(s, i, po + k, 1), 8), y = toE(rd(s, j, qo + k, 1), 8);
            r = mkIte(mk(EQ, x, y), r, mk(SUB, mkZExt(x, 32), mkZExt(y, 32)));
        }
        set(ve(r)); return true; }
    case I_BSWAP: { V v = A(0); unsigned w = in.w; if (!v.e) { uint64_t r = 0; for (unsigned k = 0; k < w; k += 8) r = r << 8 | (v.c >> k & 255); set(cv(r)); } else { E r = nullptr; for (unsigned k = 0; k < w; k += 8) { E b = mkExtract(v.e, k, 8); r = r ? mkConcat(r, b) : b; } set(ve(r)); } return true; }
    case I_BITREV: { E e = toE(A(0), in.w), r = nullptr; for (unsigned k = 0; k < in.w; k++) { E b = mkExtract(e, k, 1); r = r ? mkConcat(r, b) : b; } set(ve(r)); return true; }
    case I_CTLZ: { E e = toE(A(0), in.w), r = mkConst(in.w, in.w); for (unsigned k = 0; k < in.w; k++) r = mkIte(mkExtract(e, k, 1), mkConst(in.w, in.w - 1 - k), r); set(ve(r)); return true; }
    case I_CTTZ: { E e = toE(A(0), in.w), r = mkConst(in.w, in.w); for (unsigned k = in.w; k-- > 0;) r = mkIte(mkExtract(e, k, 1), mkConst(in.w, k), r); set(ve(r)); return true; }
    case I_CTPOP: { E e = toE(A(0), in.w), r = mkConst(in.w, 0); for (unsigned k = 0; k < in.w; k++) r = mk(ADD, r, mkZExt(mkExtract(e, k, 1), in.w)); set(ve(r)); return true; }
    case I_UADDO: case I_SADDO: case I_USUBO: case I_SSUBO: case I_UMULO: case I_SMULO: {
        unsigned w = W(0); E x = toE(A(0), w), y = toE(A(1), w), r, o;
        if (id == I_UADDO) { r = mk(ADD, x, y); o = mk(ULT, r, x); }
        else if (id == I_USUBO) { r = mk(SUB, x, y); o = mk(ULT, x, y); }
        else if (id == I_SADDO) { r = mk(ADD, x, y); E sxx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); o = mk(AND, mk(EQ, sxx, sy), mkNot(mk(EQ, sxx, sr))); }
        else if (id == I_SSUBO) { r = mk(SUB, x, y); E sxx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); o = mk(AND, mkNot(mk(EQ, sxx, sy)), mkNot(mk(EQ, sxx, sr))); }
        else {
            if (id == I_UMULO) { r = mk(MUL, x, y); E q = isC(y) ? y : x, p = isC(y) ? x : y; // overflow iff q != 0 && p > max / q
                o = mk(AND, mkNot(mk(EQ, q, mkConst(w, 0))), mk(ULT, mk(UDIV, mkConst(w, ~0ull), mkIte(mk(EQ, q, mkConst(w, 0)), mkConst(w, 1), q)), p)); }
            else if (w <= 32) { E p = mk(MUL, mkSExt(x, 2 * w), mkSExt(y, 2 * w)); r = mkExtract(p, 0, w); o = mkNot(mk(EQ, mkSExt(r, 2 * w), p)); }
            else { incomplete(s, "smul.with.overflow.i64"); throw Kill(); }
        }
        f.r[in.dst] = ve(r); f.r[in.dst + 1] = ve(o); return true; }
    case I_UMIN: set(ve(minmax(toE(A(0), in.w), toE(A(1), in.w), ULT, true))); return true;
    case I_UMAX: set(ve(minmax(toE(A(0), in.w), toE(A(1), in.w), ULT, false))); return true;
    case I_SMIN: set(ve(minmax(toE(A(0), in.w), toE(A(1), in.w), SLT, true))); return true;
    case I_SMAX: set(ve(minmax(toE(A(0), in.w), toE(A(1), in.w), SLT, false))); return true;
    case I_ABS: { E e = toE(A(0), in.w); set(ve(mkIte(mk(SLT, e, mkConst(in.w, 0)), mk(SUB, mkConst(in.w, 0), e), e))); return true; }
    case I_FSHL: case I_FSHR: {
        unsigned w = in.w; E x = toE(A(0), w), y = toE(A(1), w), z = toE(A(2), w);
        if (isC(z)) { unsigned k = z->k % w; if (id == I_FSHR) k = (w - k) % w; set(ve(k == 0 ? (id == I_FSHL ? x : y) : mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)))); return true; }
        z = mk(UREM, z, mkConst(w, w)); E iz = mk(SUB, mkConst(w, w), z); E zero = mk(EQ, z, mkConst(w, 0));
        E r = id == I_FSHL ? mkIte(zero, x, mk(OR, mk(SHL, x, z), mk(LSHR, y, iz))) : mkIte(zero, y, mk(OR, mk(SHL, x, iz), mk(LSHR, y, z)));
        set(ve(r)); return true; }
    case I_EXPECT: set(A(0)); return true;
    case I_OBJSIZE: set(cv(mask(in.w))); return true;
    case I_ISCONST: set(cv(0)); return true;
    case I_USUBSAT: { E x = toE(A(0), in.w), y = toE(A(1), in.w); set(ve(mkIte(mk(ULT, x, y), mkConst(in.w, 0), mk(SUB, x, y)))); return true; }
    case I_UADDSAT: { E x = toE(A(0), in.w), y = toE(A(1), in.w); E r = mk(ADD, x, y); set(ve(mkIte(mk(ULT, r, x), mkConst(in.w, ~0ull), r))); return true; }
    case I_VASTART: {
        uint64_t p = concretize(s, A(0)); int i = findObj(s, p, 24); if (i < 0) die("va_start");
        Obj *o = wobj(s, i); uint64_t off = p - o->addr;
        wr(o, off, 4, cv(48)); wr(o, off + 4, 4, cv(304)); wr(o, off + 8, 8, cv(f.va)); wr(o, off + 16, 8, cv(0)); return true; }
    case I_VACOPY: { uint64_t d = concretize(s, A(0)), q = concretize(s, A(1)); copyMem(s, d, q, 24); return true; }
    case I_STACKSAVE: set(cv(0)); return true;
    case I_ABORT: report(s, "abort", "abort called (" + in.name + ")", s.model); throw Kill();
    case I_EXIT: pathEnd(s); throw Kill();
    case I_RET0: set(cv(0)); return true;
    case I_CONCRETIZE: set(cv(concretize(s, A(0)))); return true;
    case I_VALID: { uint64_t p = concretize(s, A(0)), n = concretize(s, A(1)); set(cv(findObj(s, p, n) >= 0)); return true; }
    case I_LIVE: { uint64_t n = 0; for (auto &o : s.mem) if (o->kind == K_HEAP && !o->freed) n++; set(cv(n)); return true; }
    case I_ISSYM: set(cv(A(0).e != nullptr)); return true;
    case I_ITE: { E c = toE(A(0), W(0)); set(ve(mkIte(mkNot(mk(EQ, c, mkConst(W(0), 0))), toE(A(1), 64), toE(A(2), 64)))); return true; }
    case I_MAYBE: { E c = A(0).e ? mkNot(mk(EQ, A(0).e, mkConst(W(0), 0))) : mkConst(1, A(0).c != 0); ModelP m; set(cv(feasible(s, c, m) != 0)); return true; }
    case I_FABS: set(cv(fromD(fabs(asD(concretize(s, A(0)), in.w)), in.w))); return true;
    }
    die("intrinsic %s", in.name.c_str());
}

static void uninitBranch(State &s, E c) { if (hasUninit(c)) report(s, "uninit", "control flow depends on an uninitialised value", s.model); }

static void step(State &s) {
    Frame &f = s.top(); Inst &in = f.f->bbs[f.bb].insts[f.ip];
    s.steps++; st_insts++;
    if (s.steps > max_steps) { report(s, "hang", "does not terminate within the step limit", s.model); throw Kill(); }
    auto G = [&](int i) { return get(f, in.ops[i]); };
    switch (in.op) {
    case -1: incomplete(s, "unsupported instruction: " + in.name); throw Kill();
    case LLVMRet: {
        std::vector<V> rv; if (!in.agg.empty()) for (auto &o : in.agg[0]) rv.push_back(get(f, o));
        int dst = f.dst, dn = f.dstn, normal = f.normal;
        if (s.fr.size() == 1) { pathEnd(s); throw Kill(); }
        popFrame(s); Frame &p = s.top();
        if (dst >= 0) for (int i = 0; i < dn && i < (int) rv.size(); i++) p.r[dst + i] = rv[i];
        if (normal >= 0) jump(s, normal); else p.ip++;
        return; }
    case LLVMBr: {
        if (in.bbs.size() == 1) { jump(s, in.bbs[0]); return; }
        V c = G(0);
        if (!c.e) { jump(s, in.bbs[c.c & 1 ? 0 : 1]); return; }
        bool v = evalE(c.e, *s.model); E other = v ? mkNot(c.e) : c.e; ModelP m; int r = feasible(s, other, m);
        if (r < 0) throw Kill();
        if (r == 1) { uninitBranch(s, c.e); State *o = forkState(s); o->model = m; addPC(*o, other); jump(*o, in.bbs[v ? 1 : 0]); work.push_back(o); addPC(s, v ? c.e : mkNot(c.e)); }
        jump(s, in.bbs[v ? 0 : 1]);
        return; }
    case LLVMSwitch: {
        V c = G(0);
        if (!c.e) { for (size_t i = 0; i < in.imm.size(); i++) if (in.imm[i] == c.c) { jump(s, in.bbs[i + 1]); return; } jump(s, in.bbs[0]); return; }
        // group by target
        std::map<int, E> tg; E def = mkConst(1, 1);
        for (size_t i = 0; i < in.imm.size(); i++) { E q = mk(EQ, mkConst(in.w2, in.imm[i]), c.e); auto it = tg.find(in.bbs[i + 1]); if (it == tg.end()) tg[in.bbs[i + 1]] = q; else it->second = mk(OR, it->second, q); def = mk(AND, def, mkNot(q)); }
        auto it = tg.find(in.bbs[0]); if (it == tg.end()) tg[in.bbs[0]] = def; else it->second = mk(OR, it->second, def);
        int mine = -1; E minec = nullptr; bool forked = false;
        for (auto &p : tg) {
            if (isC(p.second) && !p.second->k) continue;
            if (mine < 0 && evalE(p.second, *s.model)) { mine = p.first; minec = p.second; continue; }
        }
        for (auto &p : tg) {
            if (p.first == mine) continue;
            ModelP m; int r = feasible(s, p.second, m);
            if (r < 0) { continue; }
            if (r == 1) { State *o = forkState(s); o->model = m; addPC(*o, p.second); jump(*o, p.first); work.push_back(o); forked = true; }
        }
        if (mine < 0) die("switch");
        if (forked) { uninitBranch(s, c.e); addPC(s, minec); }
        jump(s, mine);
        return; }
    case LLVMUnreachable: report(s, "abort", "unreachable code reached", s.model); throw Kill();
    case LLVMAlloca: {
        uint64_t n = concretize(s, G(0)); if (n > 1 << 20) { incomplete(s, "alloca size"); throw Kill(); }
        uint64_t a = alloc(s, n * in.imm[0], K_STACK, false, in.imm[1]); Frame &g = s.top(); g.allocas.push_back(a); g.r[in.dst] = cv(a); break; }
    case LLVMLoad: {
        V p = G(0);
        if (in.leafw.size() == 1) { unsigned w = in.leafw[0], n = (w + 7) / 8; V v = load(s, p, n); if (w & 7) v = v.e ? ve(mkExtract(v.e, 0, w)) : cv(v.c & mask(w)); s.top().r[in.dst] = v; }
        else { uint64_t a = concretize(s, p); for (size_t i = 0; i < in.leafw.size(); i++) { unsigned w = in.leafw[i], n = (w + 7) / 8; V v = load(s, cv(a + in.imm[i]), n); if (w & 7) v = v.e ? ve(mkExtract(v.e, 0, w)) : cv(v.c & mask(w)); s.top().r[in.dst + i] = v; } }
        break; }
    case LLVMStore: {
        V p = G(0);
        if (in.leafw.size() == 1) { V v = get(f, in.agg[0][0]); unsigned n = (in.leafw[0] + 7) / 8; if (v.e && v.e->w < n * 8) v.e = mkZExt(v.e, n * 8); store(s, p, n, v); }
        else { uint64_t a = concretize(s, p); for (size_t i = 0; i < in.leafw.size(); i++) { V v = get(f, in.agg[0][i]); unsigned n = (in.leafw[i] + 7) / 8; if (v.e && v.e->w < n * 8) v.e = mkZExt(v.e, n * 8); store(s, cv(a + in.imm[i]), n, v); } }
        break; }
    case LLVMGetElementPtr: {
        V b = G(0); uint64_t off = in.imm.back(); E sym = b.e; uint64_t con = b.e ? 0 : b.c; con += off;
        for (size_t i = 1; i < in.ops.size(); i++) {
            V x = G(i); unsigned w = in.opw[i - 1];
            if (!x.e) con += (uint64_t) sx(x.c, w) * in.imm[i - 1];
            else { E t = mk(MUL, mkConst(64, in.imm[i - 1]), mkSExt(x.e, 64)); sym = sym ? mk(ADD, sym, t) : t; }
        }
        f.r[in.dst] = sym ? ve(mk(ADD, mkConst(64, con), sym)) : cv(con);
        break; }
    case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMAnd: case LLVMOr: case LLVMXor: {
        static const Op m[] = { ADD, SUB, MUL, AND, OR, XOR };
        Op o = in.op == LLVMAdd ? ADD : in.op == LLVMSub ? SUB : in.op == LLVMMul ? MUL : in.op == LLVMAnd ? AND : in.op == LLVMOr ? OR : XOR; (void) m;
        V x = G(0), y = G(1);
        if (!x.e && !y.e) f.r[in.dst] = cv(evalOp(o, in.w, x.c, y.c));
        else f.r[in.dst] = ve(mk(o, toE(x, in.w), toE(y, in.w)));
        break; }
    case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: {
        Op o = in.op == LLVMUDiv ? UDIV : in.op == LLVMSDiv ? SDIV : in.op == LLVMURem ? UREM : SREM;
        V x = G(0), y = G(1);
        if (!y.e && y.c == 0) { report(s, "memory", "division by zero", s.model); throw Kill(); }
        if (y.e) {
            E z = mk(EQ, y.e, mkConst(in.w, 0)); ModelP m; int r = feasible(s, z, m);
            if (r < 0) throw Kill();
            if (r == 1) { report(s, "memory", "division by zero", m); E nz = mkNot(z); r = feasible(s, nz, m); if (r != 1) throw Kill(); s.model = m; addPC(s, nz); }
        }
        Frame &g = s.top();
        if (!x.e && !y.e) g.r[in.dst] = cv(evalOp(o, in.w, x.c, y.c)); else g.r[in.dst] = ve(mk(o, toE(x, in.w), toE(y, in.w)));
        break; }
    case LLVMShl: case LLVMLShr: case LLVMAShr: {
        Op o = in.op == LLVMShl ? SHL : in.op == LLVMLShr ? LSHR : ASHR; V x = G(0), y = G(1);
        if (!y.e && y.c >= in.w) { report(s, "memory", "shift by more than the width", s.model); throw Kill(); }
        if (y.e) {
            E bad = mk(ULE, mkConst(in.w, in.w), y.e); ModelP m; int r = feasible(s, bad, m);
            if (r < 0) throw Kill();
            if (r == 1) { report(s, "memory", "shift by more than the width", m); E ok = mkNot(bad); r = feasible(s, ok, m); if (r != 1) throw Kill(); s.model = m; addPC(s, ok); }
        }
        Frame &g = s.top();
        if (!x.e && !y.e) g.r[in.dst] = cv(evalOp(o, in.w, x.c, y.c)); else g.r[in.dst] = ve(mk(o, toE(x, in.w), toE(y, in.w)));
        break; }
    case LLVMICmp: {
        V x = G(0), y = G(1); unsigned w = in.w2; bool neg = false, sw = false; Op o = EQ;
        switch (in.pred) {
        case LLVMIntEQ: break; case LLVMIntNE: neg = true; break;
        case LLVMIntULT: o = ULT; break; case LLVMIntULE: o = ULE; break; case LLVMIntUGT: o = ULT; sw = true; break; case LLVMIntUGE: o = ULE; sw = true; break;
        case LLVMIntSLT: o = SLT; break; case LLVMIntSLE: o = SLE; break; case LLVMIntSGT: o = SLT; sw = true; break; case LLVMIntSGE: o = SLE; sw = true; break;
        }
        if (sw) std::swap(x, y);
        if (!x.e && !y.e) f.r[in.dst] = cv(evalOp(o, w, x.c, y.c) ^ neg);
        else { E r = mk(o, toE(x, w), toE(y, w)); if (neg) r = mkNot(r); f.r[in.dst] = ve(r); }
        break; }
    case LLVMZExt: { V x = G(0); f.r[in.dst] = x.e ? ve(mkZExt(x.e, in.w)) : x; break; }
    case LLVMSExt: { V x = G(0); f.r[in.dst] = x.e ? ve(mkSExt(x.e, in.w)) : cv((uint64_t) sx(x.c, in.w2) & mask(in.w)); break; }
    case LLVMTrunc: { V x = G(0); f.r[in.dst] = x.e ? ve(mkExtract(x.e, 0, in.w)) : cv(x.c & mask(in.w)); break; }
    case LLVMPtrToInt: { V x = G(0); f.r[in.dst] = x.e ? ve(mkExtract(x.e, 0, in.w)) : cv(x.c & mask(in.w)); break; }
    case LLVMIntToPtr: { V x = G(0); f.r[in.dst] = x.e ? ve(mkZExt(x.e, 64)) : x; break; }
    case LLVMBitCast: case LLVMFreeze: case LLVMAddrSpaceCast: f.r[in.dst] = G(0); break;
    case LLVMSelect: {
        V c = G(0);
        for (int i = 0; i < in.n; i++) {
            V x = get(f, in.agg[0][i]), y = get(f, in.agg[1][i]);
            if (!c.e) f.r[in.dst + i] = c.c & 1 ? x : y;
            else { unsigned w = in.n == 1 ? in.w : x.e ? x.e->w : y.e ? y.e->w : 64; f.r[in.dst + i] = ve(mkIte(c.e, toE(x, w), toE(y, w))); }
        }
        break; }
    case LLVMExtractValue: for (uint64_t i = 0; i < in.imm[1]; i++) f.r[in.dst + i] = get(f, in.agg[0][in.imm[0] + i]); break;
    case LLVMInsertValue: {
        std::vector<V> t; for (auto &o : in.agg[0]) t.push_back(get(f, o));
        for (uint64_t i = 0; i < in.imm[1]; i++) t[in.imm[0] + i] = get(f, in.agg[1][i]);
        for (size_t i = 0; i < t.size(); i++) f.r[in.dst + i] = t[i];
        break; }
    case LLVMFence: break;
    case LLVMAtomicRMW: {
        V p = cv(concretize(s, G(0))), x = G(1); unsigned w = in.w2, n = w / 8; V o = load(s, p, n), r;
        switch (in.pred) {
        case LLVMAtomicRMWBinOpXchg: r = x; break;
        case LLVMAtomicRMWBinOpAdd: r = ve(mk(ADD, toE(o, w), toE(x, w))); break;
        case LLVMAtomicRMWBinOpSub: r = ve(mk(SUB, toE(o, w), toE(x, w))); break;
        case LLVMAtomicRMWBinOpAnd: r = ve(mk(AND, toE(o, w), toE(x, w))); break;
        case LLVMAtomicRMWBinOpOr: r = ve(mk(OR, toE(o, w), toE(x, w))); break;
        default: incomplete(s, "atomicrmw"); throw Kill();
        }
        store(s, p, n, r); s.top().r[in.dst] = o; break; }
    case LLVMAtomicCmpXchg: {
        V p = cv(concretize(s, G(0))), e = G(1), x = G(2); unsigned w = in.w2, n = w / 8; V o = load(s, p, n);
        E c = mk(EQ, toE(o, w), toE(e, w)); bool b = decide(s, c); if (b) store(s, p, n, x);
        Frame &g = s.top(); g.r[in.dst] = o; g.r[in.dst + 1] = cv(b); break; }
    case LLVMFNeg: case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: {
        double x = asD(concretize(s, G(0)), in.w), y = in.ops.size() > 1 ? asD(concretize(s, G(1)), in.w) : 0, r = 0;
        switch (in.op) { case LLVMFNeg: r = -x; break; case LLVMFAdd: r = x + y; break; case LLVMFSub: r = x - y; break; case LLVMFMul: r = x * y; break; case LLVMFDiv: r = x / y; break; default: r = fmod(x, y); }
        s.top().r[in.dst] = cv(fromD(r, in.w)); break; }
    case LLVMFCmp: {
        double x = asD(concretize(s, G(0)), in.w2), y = asD(concretize(s, G(1)), in.w2); bool un = x != x || y != y, r = false;
        switch (in.pred) {
        case LLVMRealOEQ: r = !un && x == y; break; case LLVMRealOGT: r = !un && x > y; break; case LLVMRealOGE: r = !un && x >= y; break; case LLVMRealOLT: r = !un && x < y; break; case LLVMRealOLE: r = !un && x <= y; break; case LLVMRealONE: r = !un && x != y; break;
        case LLVMRealORD: r = !un; break; case LLVMRealUNO: r = un; break; case LLVMRealUEQ: r = un || x == y; break; case LLVMRealUGT: r = un || x > y; break; case LLVMRealUGE: r = un || x >= y; break; case LLVMRealULT: r = un || x < y; break; case LLVMRealULE: r = un || x <= y; break; case LLVMRealUNE: r = un || x != y; break; case LLVMRealPredicateTrue: r = true; break;
        }
        s.top().r[in.dst] = cv(r); break; }
    case LLVMSIToFP: case LLVMUIToFP: { uint64_t x = concretize(s, G(0)); double d = in.op == LLVMSIToFP ? (double) sx(x, in.w2) : (double) x; s.top().r[in.dst] = cv(fromD(d, in.w)); break; }
    case LLVMFPToSI: case LLVMFPToUI: { double d = asD(concretize(s, G(0)), in.w2); uint64_t r = in.op == LLVMFPToSI ? (uint64_t) (int64_t) d : (uint64_t) d; s.top().r[in.dst] = cv(r & mask(in.w)); break; }
    case LLVMFPExt: case LLVMFPTrunc: s.top().r[in.dst] = cv(fromD(asD(concretize(s, G(0)), in.w2), in.w)); break;
    case LLVMCall: case LLVMInvoke: {
        int id = in.intr; Func *cf = nullptr;
        if (id == I_IGNORE) { if (in.op == LLVMInvoke) jump(s, in.bbs[0]); else f.ip++; return; }
        std::vector<std::vector<V>> args; args.reserve(in.agg.size());
        for (auto &g : in.agg) { std::vector<V> a; for (auto &o : g) a.push_back(get(f, o)); args.push_back(std::move(a)); }
        if (!id) {
            uint64_t t = concretize(s, G(0)); auto it = faddr.find(t);
            if (it == faddr.end()) { report(s, "memory", t ? "call through a wild pointer" : "call through a null pointer", s.model); throw Kill(); }
            cf = it->second; if (cf->decl) { id = cf->intr; if (!id) { incomplete(s, "no body for function " + cf->name); throw Kill(); } }
        }
        if (id) {
            Frame &g = s.top();
            intrinsic(s, g, in, id, args);
            Frame &h = s.top(); if (in.op == LLVMInvoke) jump(s, in.bbs[0]); else h.ip++;
            return;
        }
        for (int i = 0; i < cf->nargs && i < (int) cf->byval.size(); i++) if (cf->byval[i]) args[i][0] = cv(concretize(s, args[i][0]));
        enter(s, cf, args, in.dst, in.n, in.opw, in.op == LLVMInvoke ? in.bbs[0] : -1);
        return; }
    default: incomplete(s, "unsupported opcode " + std::to_string(in.op)); throw Kill();
    }
    s.top().ip++;
}

// ---------------------------------------------------------------- exploration
static void openOut() { char b[600]; snprintf(b, sizeof b, "%s/r.%d.jsonl", outdir.c_str(), (int) getpid()); out = fopen(b, "w"); if (!out) die("cannot write %s", b); }
static void finish(const char *why) {
    std::string fn;
    for (Func *f : funcs) if (f->executed && !f->file.empty()) {
        int c = 0; std::string unc; for (auto &b : f->bbs) { if (b.covered) c++; else { for (auto &i : b.insts) if (i.line) { unc += (unc.empty() ? "" : ",") + std::to_string(i.line); break; } } }
        fn += (fn.empty() ? "" : ",") + std::string("{\"f\":\"") + jesc(f->name) + "\",\"file\":\"" + jesc(f->file) + "\",\"bbs\":" + std::to_string(f->bbs.size()) + ",\"cov\":" + std::to_string(c) + ",\"unc\":[" + (show_cov ? unc : "") + "]}";
    }
    std::string rt; for (auto &t : reachedTags) rt += (rt.empty() ? "\"" : ",\"") + jesc(t) + "\"";
    rusage ru; getrusage(RUSAGE_SELF, &ru);
    char b[2000]; snprintf(b, sizeof b, "{\"type\":\"stats\",\"end\":\"%s\",\"paths\":%llu,\"insts\":%llu,\"forks\":%llu,\"assumed\":%llu,\"checks\":%llu,\"errors\":%llu,\"incomplete\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"exprs\":%llu,\"rss_mb\":%ld,\"left\":%llu,\"wall_s\":%.2f",
        why, (unsigned long long) st_paths, (unsigned long long) st_insts, (unsigned long long) st_forks, (unsigned long long) st_assumed, (unsigned long long) st_checks, (unsigned long long) st_errors, (unsigned long long) st_incomplete, (unsigned long long) g_ss.queries, (unsigned long long) g_ss.sat, (unsigned long long) g_ss.unsat, (unsigned long long) g_ss.unknown, (unsigned long long) g_ss.cacheHits, (unsigned long long) g_ss.modelHits, g_ss.time, g_ss.maxTime, (unsigned long long) exprCount(), ru.ru_maxrss / 1024, (unsigned long long) work.size(), now() - t_start);
    emit(std::string(b) + ",\"reached\":[" + rt + "],\"functions\":[" + fn + "]}");
    fclose(out);
}
static void maybeSplit() {
    if (work.empty()) return;
    int t = tokm->tokens.load();
    while (t > 0 && !tokm->tokens.compare_exchange_weak(t, t - 1)) {}
    if (t <= 0) return;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { tokm->tokens++; return; }
    // the parent keeps the even entries, the child takes the odd ones (or the only one)
    std::vector<State *> mine, drop; size_t n = work.size();
    for (size_t i = 0; i < n; i++) { bool child = n == 1 || (i & 1) == 0; if (child == (p == 0)) mine.push_back(work[i]); }
    work.swap(mine);
    if (p == 0) {
        g_root = false; kids.clear(); st_paths = st_insts = st_forks = st_assumed = st_checks = st_errors = st_incomplete = 0; g_ss = SolverStats(); openOut();
        for (Func *f : funcs) { f->executed = false; for (auto &b : f->bbs) b.covered = false; }
        if (work.empty()) { finish("done"); tokm->tokens++; _exit(0); }
        delete cur; cur = work.back(); work.pop_back();
    } else kids.push_back(p);
}

int main(int argc, char **argv) {
    const char *bc = nullptr, *tok = nullptr; std::string entry = "harness"; bool addtok = false; bool root = true;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
        if (a == "--out") outdir = nx(); else if (a == "--tokens") tok = nx(); else if (a == "--max-steps") max_steps = atoll(nx()); else if (a == "--max-time") max_time = atof(nx()); else if (a == "--stop-after") stop_after = atof(nx());
        else if (a == "--max-paths") max_paths = atoll(nx()); else if (a == "--cov") show_cov = true; else if (a == "-v") verbose = true; else if (a == "--enum") enum_addr = true; else if (a == "--entry") entry = nx(); else if (a == "--max-values") max_values = atoll(nx()); else if (a == "--witnesses") witness_max = atoi(nx());
        else if (a == "--add-token") addtok = true; else if (a == "--rlimit") g_rlimit2 = atoll(nx());
        else bc = argv[i];
    }
    rlimit rl = { 1ull << 30, RLIM_INFINITY }; if (getenv("VFX_STACK") == nullptr) { setrlimit(RLIMIT_STACK, &rl); setenv("VFX_STACK", "1", 1); execv("/proc/self/exe", argv); }
    t_start = now(); if (!addtok) openOut();
    tokm = shm = (Shared *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (tok) { int fd = open(tok, O_RDWR); if (fd < 0) die("tokens"); tokm = (Shared *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    if (addtok) { tokm->tokens++; return 0; }
    State *s = load(bc);
    Func *h = nullptr; for (Func *f : funcs) if (f->name == entry) h = f;
    if (!h || h->decl) die("no function %s", entry.c_str());
    enter(*s, h, {}, -1, 0, {}, -1);
    cur = s; const char *why = "done"; uint64_t n = 0; double tlast = now();
    for (;;) {
        if (!cur) { if (work.empty()) break; cur = work.back(); work.pop_back(); }
        try { for (int k = 0; k < 2000; k++) step(*cur); }
        catch (Kill &) { delete cur; cur = nullptr; }
        if (++n % 8 == 0) {
            double t = now();
            if (shm->stop) { why = "stopped"; break; }
            if (stop_after > 0 && shm->viol_t > 0 && t - shm->viol_t > stop_after) { why = "violation"; shm->stop = 1; break; }
            if (t - t_start > max_time) { why = "time"; shm->stop = 1; break; }
            if (st_paths > max_paths) { why = "paths"; break; }
            if (t - tlast > 0.15) {
                tlast = t; if (work.size() > 1 && tokm->tokens > 0) maybeSplit();
                rusage ru; if (n % 1024 == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 3500 * 1024) { why = "memory"; shm->stop = 1; break; } }
                if (verbose) { static double tv; if (t - tv > 5) { tv = t; fprintf(stderr, "[%d] paths %llu work %zu insts %llu queries %llu solver %.1f exprs %zu at %s\n", getpid(), (unsigned long long) st_paths, work.size(), (unsigned long long) st_insts, (unsigned long long) g_ss.queries, g_ss.time, exprCount(), cur ? where(*cur).c_str() : ""); } }
            }
        }
    }
    if (cur) work.push_back(cur);
    finish(why);
    if (!g_root) tokm->tokens++;
    int bad = 0;
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
    _exit(bad ? 4 : 0);
}
