// Path-exploring symbolic executor for LLVM 18 IR with Z3 as the decision procedure.
// Usage: symex --out=OUT.json [--param k=v]... [--timeout=S] [--max-steps=N] [--solver=bv|smt] mod1.bc mod2.bc ...
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <functional>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <random>
using namespace llvm;

typedef std::chrono::steady_clock Clock;
static double secs(Clock::time_point a) { return std::chrono::duration<double>(Clock::now() - a).count(); }

static ExprPool X;
static Z3_solver Z;
static unsigned gQueryMs = 60000;

// ------------------------------------------------------------------ values
struct Val;
typedef std::shared_ptr<std::vector<Val>> Agg;
struct Val {
    u64 c = 0; E e = nullptr; Agg agg;
    Val() {}
    Val(u64 c_) : c(c_) {}
    bool sym() const { return e != nullptr; }
};
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val mk(E e) { Val v; if (e->isC() && e->w <= 64) v.c = (u64)e->v; else v.e = e; return v; }
static E toE(const Val& v, unsigned w) { if (v.e) { assert(v.e->w == w); return v.e; } return X.cst(v.c, w); }
static Val mkAgg(size_t n) { Val v; v.agg = std::make_shared<std::vector<Val>>(n); return v; }

// ------------------------------------------------------------------ memory
enum OKind : uint8_t { O_Heap, O_Stack, O_Global, O_Func, O_Ext };
struct Obj {
    uint32_t refs = 1;
    u64 base = 0, size = 0; E sizeE = nullptr;
    OKind kind = O_Heap; bool freed = false, ro = false; uint8_t how = 0; // how: 0 malloc 1 new 2 new[]
    u64 align = 16;
    uint8_t* data = nullptr; E* sy = nullptr; uint32_t nsym = 0;
    Function* fn = nullptr; const char* site = "";
    Obj() {}
    Obj(const Obj& o) { *this = o; refs = 1; if (o.data) { data = (uint8_t*)malloc(size ? size : 1); memcpy(data, o.data, size); } if (o.sy) { sy = (E*)malloc(sizeof(E) * (size ? size : 1)); memcpy(sy, o.sy, sizeof(E) * size); } }
    Obj& operator=(const Obj&) = default;
    ~Obj() {}
    void drop() { free(data); free(sy); data = nullptr; sy = nullptr; }
};
struct OP {
    Obj* p = nullptr;
    OP() {} OP(Obj* q) : p(q) {}
    OP(const OP& o) : p(o.p) { if (p) ++p->refs; }
    OP(OP&& o) noexcept : p(o.p) { o.p = nullptr; }
    OP& operator=(OP o) { std::swap(p, o.p); return *this; }
    ~OP() { if (p && --p->refs == 0) { p->drop(); delete p; } }
};

// ------------------------------------------------------------------ decoded program
struct Op { int slot = -1; Val cv; };
struct DFunc;
struct DInst {
    unsigned opc = 0; const Instruction* I = nullptr; int dst = -1; unsigned w = 0; unsigned w2 = 0;
    std::vector<Op> ops;
    std::vector<u64> idx;                          // switch/gep/extract data
    std::vector<std::pair<u64, int>> cases;
    int64_t off = 0; int bb1 = -1, bb2 = -1;
    Type* ty = nullptr; unsigned pred = 0;
    Function* callee = nullptr; int builtin = -1; Intrinsic::ID iid = Intrinsic::not_intrinsic;
    u64 bytes = 0; int merge = 0;
};
struct DBlock { std::vector<DInst> in; std::vector<std::vector<std::pair<int, Op>>> phis; std::vector<int> preds; bool seen = false; const BasicBlock* B; };
struct DFunc { Function* F; std::vector<DBlock> bb; std::vector<unsigned> argw; int nslots = 0; bool seen = false; };

struct Frame {
    DFunc* f; int bb = 0; int pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; std::vector<Val> va;
};
struct Exc { u64 ptr = 0; u64 ti = 0; };
struct State {
    std::vector<Frame> st; std::vector<OP> objs; std::vector<E> pc; std::vector<u128> model;
    std::map<std::string, int> nsym; std::vector<E> used;
    std::vector<Exc> caught; Exc inflight; bool unwinding = false;
    std::map<u64, u64> excTi; // exception object -> typeinfo
    u64 steps = 0; u64 heapLive = 0; u64 heapBytes = 0; u64 stepBase = 0; std::vector<std::pair<std::string, Val>> notes; std::string tag;
    int failAlloc = -1;
};

struct Err { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> vals; std::vector<std::string> stack; u64 count = 0; std::vector<std::pair<std::string,std::string>> notes; };

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<Function*, DFunc*> DF;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::map<std::string, u64> extAddr;
static std::map<u64, std::string> addrName;
static std::map<std::string, int64_t> params;
static std::vector<std::unique_ptr<State>> work;
static std::map<std::string, Err> gErrs;
static std::map<std::string, u64> reach;
static std::map<std::string, u64> unsupported;
static u64 nPaths = 0, nCut = 0, nForks = 0, nQ = 0, nQsat = 0, nQunsat = 0, nQunk = 0, nSteps = 0, nAsserts = 0, nAssertsSolver = 0, nAssume0 = 0, nAllocs = 0, maxPathSteps = 0;
static double tSolver = 0, tMaxQ = 0;
static u64 maxSteps = 20000000; static double timeLimit = 1e9; static Clock::time_point t0;
static bool timedOut = false; static size_t maxErrPerClass = 1; static bool stopOnErr = false; static u64 maxForkVals = 4096;
static std::vector<std::pair<std::string, std::map<std::string, std::string>>> samples;

struct PathEnd {};            // current path finished/aborted
struct Reexec {};             // not used

// ------------------------------------------------------------------ solver
static std::vector<E> zstack;
static bool gAssume = false; static u64 gLits = 0, gResetAt = 20000;
static std::unordered_map<E, Z3_ast> litOf; static std::vector<Z3_ast> zas;
static Z3_solver mkSolver();
static Z3_ast lit(E e) {
    if (e->k == K_Xor && e->b->isC() && e->w == 1) return Z3_mk_not(X.ctx, lit(e->a));
    if (e->k == K_Var && e->w == 1) return X.bl(e);
    auto it = litOf.find(e); if (it != litOf.end()) return it->second;
    Z3_ast l = Z3_mk_fresh_const(X.ctx, "l", Z3_mk_bool_sort(X.ctx)); Z3_inc_ref(X.ctx, l);
    Z3_solver_assert(X.ctx, Z, Z3_mk_iff(X.ctx, l, X.bl(e))); litOf[e] = l; ++gLits; return l;
}
static void syncSolver(const std::vector<E>& pc) {
    if (gAssume) {
        if (gLits > gResetAt) { Z3_solver_reset(X.ctx, Z); for (auto& p : litOf) Z3_dec_ref(X.ctx, p.second); litOf.clear(); gLits = 0; }
        zas.clear(); for (E c : pc) zas.push_back(lit(c)); return; }
    size_t k = 0; while (k < zstack.size() && k < pc.size() && zstack[k] == pc[k]) ++k;
    if (zstack.size() > k) { Z3_solver_pop(X.ctx, Z, (unsigned)(zstack.size() - k)); zstack.resize(k); }
    for (; k < pc.size(); ++k) { Z3_solver_push(X.ctx, Z); Z3_solver_assert(X.ctx, Z, X.bl(pc[k])); zstack.push_back(pc[k]); }
}
static void getModel(std::vector<u128>& out) {
    Z3_model m = Z3_solver_get_model(X.ctx, Z); Z3_model_inc_ref(X.ctx, m);
    out.assign(X.vars.size(), 0);
    for (size_t i = 0; i < X.vars.size(); ++i) {
        Z3_ast r; if (!Z3_model_eval(X.ctx, m, X.vars[i].z, true, &r)) continue;
        if (X.vars[i].w <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(X.ctx, r, &u); out[i] = u; }
        else { std::string s = Z3_get_numeral_string(X.ctx, r); u128 v = 0; for (char ch : s) v = v * 10 + (ch - '0'); out[i] = v; }
    }
    Z3_model_dec_ref(X.ctx, m);
}
// 1 sat, 0 unsat, -1 unknown
static E simp(State& s, E c); extern u64 nSimpV; u64 nSimpV = 0;
static int query(State& s, E c, std::vector<u128>* model) {
    c = simp(s, c);
    if (c->isC()) { ++nSimpV; if (c->v && model) *model = s.model; return c->v != 0; }
    syncSolver(s.pc);
    auto t = Clock::now();
    Z3_lbool r;
    if (gAssume) { zas.push_back(lit(c)); r = Z3_solver_check_assumptions(X.ctx, Z, (unsigned)zas.size(), zas.data()); }
    else { Z3_solver_push(X.ctx, Z); Z3_solver_assert(X.ctx, Z, X.bl(c)); r = Z3_solver_check(X.ctx, Z); }
    ++nQ;
    if (r == Z3_L_TRUE && model) getModel(*model);
    if (!gAssume) Z3_solver_pop(X.ctx, Z, 1);
    double d = secs(t); tSolver += d; if (d > tMaxQ) tMaxQ = d;
    if (r == Z3_L_TRUE) { ++nQsat; return 1; }
    if (r == Z3_L_FALSE) { ++nQunsat; return 0; }
    ++nQunk; return -1;
}
static bool evalB(State& s, E c) { ++X.evalStamp; return X.eval(c, s.model) != 0; }
static bool inPc(State& s, E c) { for (E p : s.pc) if (p == c) return true; return false; }
static void addPc(State& s, E c) { if (c->isC()) return; if (c->k == K_And && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; } if (!inPc(s, c)) s.pc.push_back(c); }
static E simp(State& s, E c) { if (c->isC()) return c; ++X.subStamp; for (E p : s.pc) X.fact(p); return X.subst(c); }

// is c possible (sat)? fills model
static int may(State& s, E c, std::vector<u128>* model) {
    if (c->isC()) { if (c->v && model) *model = s.model; return c->v != 0; }
    if (inPc(s, X.notE(c))) return 0;
    if (evalB(s, c)) { if (model) *model = s.model; return 1; }
    return query(s, c, model);
}

// ------------------------------------------------------------------ errors
static std::string shortName(const std::string& n) { size_t p = n.find('<'); return p == std::string::npos || p == 0 || n.rfind("operator", 0) == 0 ? n : n.substr(0, p); }
static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    std::string r;
    if (const DILocation* L = I->getDebugLoc()) {
        const DILocation* p = L;
        // prefer the innermost frame in the repository
        for (const DILocation* q = L; q; q = q->getInlinedAt()) { std::string f = q->getFilename().str(); if (f.find("/include/") != std::string::npos && f.find("c++") == std::string::npos) { p = q; break; } }
        r = p->getFilename().str() + ":" + std::to_string(p->getLine());
        if (auto* sp = p->getScope()->getSubprogram()) r += " " + shortName(sp->getName().str());
    } else r = demangle(I->getFunction()->getName().str());
    return r;
}
static std::vector<std::pair<std::string, std::string>> valsOf(State& s, const std::vector<u128>& m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (E v : s.used) { u128 x = v->v < m.size() ? m[(size_t)v->v] : 0; r.push_back({X.vars[(size_t)v->v].name, std::to_string((u64)x)}); }
    return r;
}
static const Instruction* curI(State& s) { if (s.st.empty()) return nullptr; Frame& f = s.st.back(); auto& b = f.f->bb[f.bb]; if (f.pc < (int)b.in.size()) return b.in[f.pc].I; return nullptr; }
static void report(State& s, const std::string& kind, const std::string& msg, const std::vector<u128>& model) {
    std::string loc = locOf(curI(s));
    std::string key = kind + "|" + msg + "|" + (kind == "assert" || kind == "termination" ? "" : loc);
    Err& e = gErrs[key];
    if (e.count++ == 0) {
        e.kind = kind; e.msg = msg; e.loc = loc; e.vals = valsOf(s, model);
        for (size_t i = s.st.size(); i-- > 0 && e.stack.size() < 12;) {
            Frame& f = s.st[i]; auto& b = f.f->bb[f.bb];
            const Instruction* I = f.pc < (int)b.in.size() ? b.in[f.pc].I : nullptr;
            e.stack.push_back(locOf(I));
        }
        for (auto& n : s.notes) { std::string v; if (n.second.sym()) { ++X.evalStamp; v = std::to_string((u64)X.eval(n.second.e, model)); } else v = std::to_string(n.second.c); e.notes.push_back({n.first, v}); }
    }
    if (stopOnErr) timedOut = true;
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); throw PathEnd{}; }
[[noreturn]] static void unsup(State& s, const std::string& what) { unsupported[what + " @ " + locOf(curI(s))]++; throw PathEnd{}; }

// require c to hold; if it can fail report (with model) and continue with c, end if c impossible
static void require(State& s, E c, const std::string& kind, const std::string& msg) {
    if (c->isC()) { if (!c->v) fail(s, kind, msg); return; }
    if (inPc(s, c)) return;
    std::vector<u128> m;
    int r = may(s, X.notE(c), &m);
    if (r == -1) { unsupported["solver unknown: " + msg]++; }
    if (r == 1) report(s, kind, msg, m);
    if (r == 0) return;                 // implied
    std::vector<u128> m2;
    if (may(s, c, &m2) != 1) throw PathEnd{};
    s.model = m2; addPc(s, c);
}

static std::map<const Instruction*, u64> forkAt;
static std::unique_ptr<State> cloneState(State& s) { ++nForks; ++forkAt[curI(s)]; return std::unique_ptr<State>(new State(s)); }

// Split on condition c: the current state keeps the returned side; the other side (if feasible) is queued and will
// re-execute the current instruction.
static bool splitReexec(State& s, E c) {
    if (c->isC()) return c->v;
    bool side = evalB(s, c);
    E other = side ? X.notE(c) : c;
    E mine = side ? c : X.notE(c);
    if (inPc(s, mine)) return side;
    std::vector<u128> m;
    int r = query(s, other, &m);
    if (r == -1) unsupported["solver unknown at split"]++;
    if (r == 1) { auto n = cloneState(s); n->model = m; addPc(*n, other); work.push_back(std::move(n)); addPc(s, mine); }
    return side;
}
// fork over the feasible values of e
static u64 concretize(State& s, const Val& v) {
    if (!v.sym()) return v.c;
    ++X.evalStamp; u128 x = X.eval(v.e, s.model);
    splitReexec(s, X.eq(v.e, X.cst(x, v.e->w)));
    return (u64)x;
}

// ------------------------------------------------------------------ memory operations
static u64 baseFor(size_t id, u64 align) { if (align < 1) align = 1; u64 b = ((u64)(id + 16)) << 32; return b + (align >= 4096 ? align : ([&] { u64 o = align; while (o < 64) o += 2 * align; return o; }())); }
static Obj* newObj(State& s, u64 size, u64 align, OKind k) {
    Obj* o = new Obj; size_t id = s.objs.size(); o->base = baseFor(id, align); o->size = size; o->align = align; o->kind = k;
    o->data = (uint8_t*)malloc(size ? size : 1); memset(o->data, k == O_Heap ? 0xbe : (k == O_Stack ? 0xcd : 0), size);
    s.objs.push_back(OP(o)); return o;
}
static int64_t objId(State& s, u64 addr) { u64 id = (addr >> 32); if (id < 16) return -1; id -= 16; return id < s.objs.size() ? (int64_t)id : -1; }
static Obj* wr(State& s, int64_t id) { OP& p = s.objs[id]; if (p.p->refs > 1) p = OP(new Obj(*p.p)); return p.p; }

static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
// resolve address to (object id, offset expr/const) with bounds check for n bytes
struct Loc { int64_t id; u64 off; E offE; };
static Loc resolve(State& s, const Val& a, u64 n, bool write) {
    const char* rw = write ? "write" : "read";
    if (!a.sym()) {
        int64_t id = objId(s, a.c);
        if (id < 0 || !s.objs[id].p) fail(s, "memory", std::string(a.c < 65536 ? "null-pointer " : "wild-pointer ") + rw);
        Obj* o = s.objs[id].p;
        if (o->freed) fail(s, "memory", std::string("use-after-") + (o->kind == O_Stack ? "return " : "free ") + rw);
        u64 off = a.c - o->base;
        if (o->sizeE) {
            E c = X.andE(X.bin(K_Ule, X.cst(n, 64), o->sizeE), X.bin(K_Ule, X.cst(off, 64), X.bin(K_Sub, o->sizeE, X.cst(n, 64))));
            if (off > o->size || n > o->size - off) fail(s, "memory", std::string("out-of-bounds ") + rw);
            require(s, c, "memory", std::string("out-of-bounds ") + rw);
        }
        else if (off > o->size || n > o->size - off) fail(s, "memory", std::string("out-of-bounds ") + rw);
        if (write && o->ro) fail(s, "memory", "write to constant");
        return {id, off, nullptr};
    }
    ++X.evalStamp; u64 av = (u64)X.eval(a.e, s.model);
    int64_t id = objId(s, av);
    E inRegion = X.eq(X.extract(a.e, 32, 32), X.cst(av >> 32, 32));
    splitReexec(s, inRegion);         // the other regions re-execute
    if (id < 0 || !s.objs[id].p) fail(s, "memory", std::string("wild-pointer ") + rw);
    Obj* o = s.objs[id].p;
    if (o->freed) fail(s, "memory", std::string("use-after-free ") + rw);
    E off = X.bin(K_Sub, a.e, X.cst(o->base, 64));
    E sz = o->sizeE ? o->sizeE : X.cst(o->size, 64);
    E c = X.andE(X.bin(K_Ule, X.cst(n, 64), sz), X.bin(K_Ule, off, X.bin(K_Sub, sz, X.cst(n, 64))));
    require(s, c, "memory", std::string("out-of-bounds ") + rw);
    if (write && o->ro) fail(s, "memory", "write to constant");
    if (off->isC()) return {id, (u64)off->v, nullptr};
    return {id, 0, off};
}
// feasible values of an offset
static std::vector<u64> enumOff(State& s, E off, size_t cap) {
    std::vector<u64> r; E diff = X.cst(1, 1);
    ++X.evalStamp; u64 v = (u64)X.eval(off, s.model);
    for (;;) {
        r.push_back(v);
        if (r.size() > cap) { unsup(s, "symbolic offset with too many values"); }
        diff = X.andE(diff, X.notE(X.eq(off, X.cst(v, 64))));
        std::vector<u128> m;
        int q = query(s, diff, &m);
        if (q == -1) unsup(s, "solver unknown in offset enumeration");
        if (q == 0) break;
        ++X.evalStamp; v = (u64)X.eval(off, m);
    }
    std::sort(r.begin(), r.end());
    return r;
}
static E byteE(Obj* o, u64 i) { if (o->sy && o->sy[i]) return o->sy[i]; return X.cst(o->data[i], 8); }
// Bytes of a stored word are simplified one by one; this remembers which word a sequence of bytes came from.
struct Word { unsigned nb; E b[16]; E whole; };
static std::unordered_map<u64, Word> gWords;
static u64 wordKey(const E* b, unsigned nb) { u64 h = nb; for (unsigned i = 0; i < nb; ++i) h = (h ^ ((u64)(uintptr_t)b[i] >> 4)) * 0x9E3779B97F4A7C15ull; return h; }
static Val readAt(State& s, Obj* o, u64 off, unsigned nb, unsigned w) {
    bool con = true;
    if (o->nsym) for (unsigned i = 0; i < nb; ++i) if (o->sy[off + i]) { con = false; break; }
    if (con && nb <= 8) { u64 v = 0; memcpy(&v, o->data + off, nb); Val r; r.c = v & m64(w); return r; }
    E e = nullptr;
    if (nb > 1 && nb <= 16) {
        E b[16]; for (unsigned i = 0; i < nb; ++i) b[i] = byteE(o, off + i);
        auto it = gWords.find(wordKey(b, nb));
        if (it != gWords.end() && it->second.nb == nb && std::equal(b, b + nb, it->second.b)) e = it->second.whole;
    }
    if (!e) { e = byteE(o, off); for (unsigned i = 1; i < nb; ++i) e = X.concat(byteE(o, off + i), e); }
    if (e->w != w) e = X.extract(e, 0, w);
    return mk(e);
}
static void setByte(Obj* o, u64 i, E b) {
    if (b->isC()) { o->data[i] = (uint8_t)b->v; if (o->sy && o->sy[i]) { o->sy[i] = nullptr; --o->nsym; } return; }
    if (!o->sy) o->sy = (E*)calloc(o->size ? o->size : 1, sizeof(E));
    if (!o->sy[i]) ++o->nsym;
    o->sy[i] = b;
}
static void writeAt(Obj* o, u64 off, unsigned nb, unsigned w, const Val& v) {
    if (!v.sym()) {
        if (o->nsym) for (unsigned i = 0; i < nb; ++i) if (o->sy[off + i]) { o->sy[off + i] = nullptr; --o->nsym; }
        u64 c = v.c; if (nb <= 8) memcpy(o->data + off, &c, nb); else { memcpy(o->data + off, &c, 8); memset(o->data + off + 8, 0, nb - 8); }
        return;
    }
    E e = v.e; if (e->w < nb * 8) e = X.zext(e, nb * 8);
    if (nb == 1 || nb > 16) { for (unsigned i = 0; i < nb; ++i) setByte(o, off + i, X.extract(e, 8 * i, 8)); return; }
    Word wd; wd.nb = nb; wd.whole = e;
    for (unsigned i = 0; i < nb; ++i) { wd.b[i] = X.extract(e, 8 * i, 8); setByte(o, off + i, wd.b[i]); }
    gWords[wordKey(wd.b, nb)] = wd;
}
static unsigned scalarW(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static Val loadScalar(State& s, const Val& addr, unsigned w, unsigned nb) {
    Loc l = resolve(s, addr, nb, false);
    Obj* o = s.objs[l.id].p;
    if (!l.offE) return readAt(s, o, l.off, nb, w);
    auto offs = enumOff(s, l.offE, 600);
    E r = toE(readAt(s, o, offs[0], nb, w), w);
    for (size_t i = 1; i < offs.size(); ++i) r = X.ite(X.eq(l.offE, X.cst(offs[i], 64)), toE(readAt(s, o, offs[i], nb, w), w), r);
    return mk(r);
}
static void storeScalar(State& s, const Val& addr, unsigned w, unsigned nb, const Val& v) {
    Loc l = resolve(s, addr, nb, true);
    if (!l.offE) { writeAt(wr(s, l.id), l.off, nb, w, v); return; }
    auto offs = enumOff(s, l.offE, 600);
    Obj* o = wr(s, l.id);
    E e = toE(v, w); if (e->w < nb * 8) e = X.zext(e, nb * 8);
    for (u64 of : offs) { E c = X.eq(l.offE, X.cst(of, 64)); for (unsigned i = 0; i < nb; ++i) setByte(o, of + i, X.ite(c, X.extract(e, 8 * i, 8), byteE(o, of + i))); }
}
static Val addOff(const Val& p, u64 k) { if (!p.sym()) return Val(p.c + k); return mk(X.bin(K_Add, p.e, X.cst(k, 64))); }
static Val loadT(State& s, const Val& addr, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); Val r = mkAgg(st->getNumElements()); for (unsigned i = 0; i < st->getNumElements(); ++i) (*r.agg)[i] = loadT(s, addOff(addr, sl->getElementOffset(i)), st->getElementType(i)); return r; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); Val r = mkAgg(at->getNumElements()); for (unsigned i = 0; i < at->getNumElements(); ++i) (*r.agg)[i] = loadT(s, addOff(addr, i * es), at->getElementType()); return r; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 eb = DL->getTypeSizeInBits(vt->getElementType()); if (eb % 8) unsup(s, "sub-byte vector load"); Val r = mkAgg(vt->getNumElements()); for (unsigned i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = loadT(s, addOff(addr, i * eb / 8), vt->getElementType()); return r; }
    unsigned w = scalarW(t); if (!w) unsup(s, "load type");
    return loadScalar(s, addr, w, (unsigned)DL->getTypeStoreSize(t));
}
static void storeT(State& s, const Val& addr, Type* t, const Val& v) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeT(s, addOff(addr, sl->getElementOffset(i)), st->getElementType(i), v.agg ? (*v.agg)[i] : Val()); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) storeT(s, addOff(addr, i * es), at->getElementType(), v.agg ? (*v.agg)[i] : Val()); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 eb = DL->getTypeSizeInBits(vt->getElementType()); if (eb % 8) unsup(s, "sub-byte vector store"); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeT(s, addOff(addr, i * eb / 8), vt->getElementType(), v.agg ? (*v.agg)[i] : Val()); return; }
    unsigned w = scalarW(t); if (!w) unsup(s, "store type");
    storeScalar(s, addr, w, (unsigned)DL->getTypeStoreSize(t), v);
}

// ------------------------------------------------------------------ constants
static u64 extGlobal(State& s, const std::string& name, u64 size = 256) {
    auto it = extAddr.find(name); if (it != extAddr.end()) return it->second;
    Obj* o = newObj(s, size, 16, O_Ext); extAddr[name] = o->base; addrName[o->base] = name; return o->base;
}
static State* initState = nullptr;
static Val constVal(State& s, const Constant* c);
static u64 globalAddr(State& s, const GlobalValue* g) {
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    if (auto* al = dyn_cast<GlobalAlias>(g)) return constVal(s, al->getAliasee()).c;
    fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); abort();
}
static Val zeroOf(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { Val r = mkAgg(st->getNumElements()); for (unsigned i = 0; i < st->getNumElements(); ++i) (*r.agg)[i] = zeroOf(st->getElementType(i)); return r; }
    if (auto* at = dyn_cast<ArrayType>(t)) { Val r = mkAgg(at->getNumElements()); for (unsigned i = 0; i < at->getNumElements(); ++i) (*r.agg)[i] = zeroOf(at->getElementType()); return r; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val r = mkAgg(vt->getNumElements()); for (unsigned i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = zeroOf(vt->getElementType()); return r; }
    unsigned w = scalarW(t); if (w > 64) { Val v; v.e = X.cst(0, w); return v; }
    return Val();
}
static Val constVal(State& s, const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return Val(ci->getZExtValue());
        u128 v = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
        Val r; r.e = X.cst(v, w); return r;
    }
    if (isa<ConstantPointerNull>(c)) return Val();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt b = cf->getValueAPF().bitcastToAPInt(); unsigned w = b.getBitWidth();
        if (w <= 64) return Val(b.getZExtValue());
        u128 v = b.getRawData()[0]; v |= (u128)b.getRawData()[1] << 64; Val r; r.e = X.cst(v, w); return r;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val(globalAddr(s, g));
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val r = mkAgg(cd->getNumElements()); for (unsigned i = 0; i < cd->getNumElements(); ++i) (*r.agg)[i] = constVal(s, cd->getElementAsConstant(i)); return r; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Val r = mkAgg(ca->getNumOperands()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) (*r.agg)[i] = constVal(s, ca->getOperand(i)); return r; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
            return Val(constVal(s, ce->getOperand(0)).c + off.getZExtValue());
        }
        switch (ce->getOpcode()) {
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val v = constVal(s, ce->getOperand(0)); unsigned w = scalarW(ce->getType()); if (w && w <= 64) v.c &= m64(w); return v; }
            case Instruction::Trunc: { Val v = constVal(s, ce->getOperand(0)); v.c &= m64(scalarW(ce->getType())); return v; }
            case Instruction::Add: return Val(constVal(s, ce->getOperand(0)).c + constVal(s, ce->getOperand(1)).c);
            case Instruction::Sub: return Val((constVal(s, ce->getOperand(0)).c - constVal(s, ce->getOperand(1)).c) & m64(scalarW(ce->getType())));
            default: break;
        }
        fprintf(stderr, "const expr opcode %s\n", ce->getOpcodeName()); abort();
    }
    if (isa<BlockAddress>(c)) return Val();
    if (auto* dso = dyn_cast<DSOLocalEquivalent>(c)) return Val(globalAddr(s, dso->getGlobalValue()));
    fprintf(stderr, "constant kind unsupported\n"); c->print(llvm::errs()); abort();
}

// ------------------------------------------------------------------ builtins
enum Bi {
    B_sym, B_assume, B_assert, B_concretize, B_reach, B_note, B_param, B_live, B_issym, B_steps, B_end, B_failalloc, B_select,
    B_new, B_newnt, B_newal, B_newalnt, B_del, B_delsz, B_delal, B_delszal, B_malloc, B_calloc, B_realloc, B_free, B_aligned_alloc, B_posix_memalign,
    B_memcpy, B_memmove, B_memset, B_memcmp, B_strlen, B_memchr, B_strcmp,
    B_abort, B_assertfail, B_throwname, B_cxa_alloc, B_cxa_free, B_cxa_throw, B_cxa_begin, B_cxa_end, B_cxa_rethrow, B_terminate, B_callterm,
    B_nop, B_ret0, B_curexc, B_rethrowexc, B_atexit, B_sqrt, B_sqrtf, B_fabs, B_floor, B_ceil, B_unexp, B_pow, B_uncaught,
};
static std::map<std::string, int> builtins;
static std::map<std::string, std::string> throwNames; // fn -> typeinfo
static void initBuiltins() {
    auto b = [&](const char* n, int k) { builtins[n] = k; };
    b("vp_sym", B_sym); b("vp_assume", B_assume); b("vp_assert", B_assert); b("vp_concretize", B_concretize); b("vp_reach", B_reach); b("vp_note", B_note);
    b("vp_param", B_param); b("vp_heap_live", B_live); b("vp_is_sym", B_issym); b("vp_step_limit", B_steps); b("vp_end", B_end); b("vp_fail_alloc", B_failalloc); b("vp_select", B_select);
    b("_Znwm", B_new); b("_Znam", B_new); b("_ZnwmRKSt9nothrow_t", B_newnt); b("_ZnamRKSt9nothrow_t", B_newnt);
    b("_ZnwmSt11align_val_t", B_newal); b("_ZnamSt11align_val_t", B_newal); b("_ZnwmSt11align_val_tRKSt9nothrow_t", B_newalnt); b("_ZnamSt11align_val_tRKSt9nothrow_t", B_newalnt);
    b("_ZdlPv", B_del); b("_ZdaPv", B_del); b("_ZdlPvm", B_delsz); b("_ZdaPvm", B_delsz); b("_ZdlPvRKSt9nothrow_t", B_del); b("_ZdaPvRKSt9nothrow_t", B_del);
    b("_ZdlPvSt11align_val_t", B_delal); b("_ZdaPvSt11align_val_t", B_delal); b("_ZdlPvmSt11align_val_t", B_delszal); b("_ZdaPvmSt11align_val_t", B_delszal);
    b("malloc", B_malloc); b("calloc", B_calloc); b("realloc", B_realloc); b("free", B_free); b("aligned_alloc", B_aligned_alloc); b("posix_memalign", B_posix_memalign);
    b("memcpy", B_memcpy); b("memmove", B_memmove); b("memset", B_memset); b("memcmp", B_memcmp); b("bcmp", B_memcmp); b("strlen", B_strlen); b("memchr", B_memchr); b("strcmp", B_strcmp);
    b("abort", B_abort); b("__assert_fail", B_assertfail); b("_ZSt9terminatev", B_terminate); b("__clang_call_terminate", B_callterm); b("__cxa_pure_virtual", B_abort);
    b("_ZSt21__glibcxx_assert_failPKciS0_S0_", B_abort);
    b("__cxa_allocate_exception", B_cxa_alloc); b("__cxa_free_exception", B_cxa_free); b("__cxa_throw", B_cxa_throw); b("__cxa_begin_catch", B_cxa_begin); b("__cxa_end_catch", B_cxa_end); b("__cxa_rethrow", B_cxa_rethrow);
    b("_ZSt17current_exceptionv", B_curexc); b("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_rethrowexc);
    b("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", B_nop); b("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", B_nop); b("_ZNSt15__exception_ptr13exception_ptrD1Ev", B_nop); b("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", B_unexp);
    b("__cxa_atexit", B_ret0); b("__cxa_thread_atexit", B_ret0); b("_ZNSt8ios_base4InitC1Ev", B_nop); b("_ZNSt8ios_base4InitD1Ev", B_nop);
    b("_ZNSt3pmr15memory_resourceD2Ev", B_nop); b("_ZNSt3pmr15memory_resourceD1Ev", B_nop); b("_ZNSt9bad_allocD1Ev", B_nop); b("_ZNSt9exceptionD2Ev", B_nop); b("_ZNSt13runtime_errorC1EPKc", B_nop); b("_ZNSt13runtime_errorD1Ev", B_nop);
    b("_ZNSt12out_of_rangeC1EPKc", B_nop); b("_ZNSt12out_of_rangeD1Ev", B_nop); b("_ZNSt12length_errorC1EPKc", B_nop); b("_ZNSt12length_errorD1Ev", B_nop); b("_ZNSt16invalid_argumentC1EPKc", B_nop); b("_ZNSt16invalid_argumentD1Ev", B_nop); b("_ZNSt11logic_errorC1EPKc", B_nop); b("_ZNSt11logic_errorD1Ev", B_nop);
    b("sqrt", B_sqrt); b("sqrtf", B_sqrtf); b("fabs", B_fabs); b("floor", B_floor); b("ceil", B_ceil); b("_ZSt18uncaught_exceptionv", B_ret0); b("_ZSt19uncaught_exceptionsv", B_ret0);
    b("pthread_mutex_lock", B_ret0); b("pthread_mutex_unlock", B_ret0); b("_ZSt28__throw_bad_array_new_lengthv", B_throwname);
    auto t = [&](const char* n, const char* ti) { builtins[n] = B_throwname; throwNames[n] = ti; };
    t("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"); t("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"); t("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); t("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
    t("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"); t("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"); t("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"); t("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); t("_ZSt20__throw_system_errori", "_ZTISt12system_error"); t("_ZSt20__throw_future_errori", "_ZTISt12future_error");
}
static const std::map<std::string, std::string> tiBase = {
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12future_error", "_ZTISt11logic_error"},
};
static std::map<u64, u64> tiBaseAddr; // within-module class typeinfo
static bool tiDerives(u64 t, u64 base) {
    for (int i = 0; i < 16 && t; ++i) {
        if (t == base) return true;
        auto it = tiBaseAddr.find(t); if (it != tiBaseAddr.end()) { t = it->second; continue; }
        auto n = addrName.find(t); if (n == addrName.end()) return false;
        auto b = tiBase.find(n->second); if (b == tiBase.end()) return false;
        auto a = extAddr.find(b->second); if (a == extAddr.end()) return false; // never referenced, so nobody can catch it... keep walking by name
        t = a->second;
    }
    return false;
}

// ------------------------------------------------------------------ decoding
static DFunc* decode(State& s, Function* F);
static Op mkOp(State& s, const Value* v, std::unordered_map<const Value*, int>& slot) {
    Op o; auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) { o.cv = constVal(s, c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    fprintf(stderr, "operand?\n"); abort();
}
static DFunc* decode(State& s, Function* F) {
    auto it = DF.find(F); if (it != DF.end()) return it->second;
    DFunc* d = new DFunc; DF[F] = d; d->F = F;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbi;
    for (auto& a : F->args()) { slot[&a] = d->nslots++; }
    { int i = 0; for (auto& b : *F) bbi[&b] = i++; }
    for (auto& b : *F) for (auto& in : b) if (!in.getType()->isVoidTy()) slot[&in] = d->nslots++;
    d->bb.resize(bbi.size());
    for (auto& b : *F) {
        DBlock& db = d->bb[bbi[&b]]; db.B = &b;
        std::vector<const PHINode*> phis;
        for (auto& in : b) {
            if (auto* p = dyn_cast<PHINode>(&in)) { phis.push_back(p); continue; }
            if (isa<DbgInfoIntrinsic>(&in)) continue;
            DInst x; x.I = &in; x.opc = in.getOpcode(); x.ty = in.getType();
            auto si = slot.find(&in); if (si != slot.end()) x.dst = si->second;
            x.w = scalarW(in.getType());
            auto add = [&](const Value* v) { x.ops.push_back(mkOp(s, v, slot)); };
            switch (in.getOpcode()) {
                case Instruction::Br: { auto* br = cast<BranchInst>(&in); x.bb1 = bbi[br->getSuccessor(0)]; if (br->isConditional()) { x.bb2 = bbi[br->getSuccessor(1)]; add(br->getCondition()); } break; }
                case Instruction::Switch: { auto* sw = cast<SwitchInst>(&in); add(sw->getCondition()); x.w2 = sw->getCondition()->getType()->getIntegerBitWidth(); x.bb1 = bbi[sw->getDefaultDest()]; for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
                case Instruction::GetElementPtr: {
                    auto* g = cast<GetElementPtrInst>(&in); add(g->getPointerOperand());
                    if (g->getType()->isVectorTy()) { x.opc = 9999; break; }
                    for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                        Value* idx = ti.getOperand();
                        if (StructType* st = ti.getStructTypeOrNull()) { x.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        u64 es = DL->getTypeAllocSize(ti.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) { x.off += ci->getSExtValue() * (int64_t)es; continue; }
                        add(idx); x.idx.push_back(es); x.idx.push_back(idx->getType()->getIntegerBitWidth());
                    }
                    break; }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(&in);
                    for (auto& a : cb->args()) add(a.get());
                    x.callee = cb->getCalledFunction();
                    if (!x.callee) if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) x.callee = f;
                    if (x.callee && x.callee->isIntrinsic()) x.iid = x.callee->getIntrinsicID();
                    else if (x.callee) { auto bi = builtins.find(x.callee->getName().str()); if (bi != builtins.end()) x.builtin = bi->second; }
                    if (!x.callee) { if (isa<InlineAsm>(cb->getCalledOperand())) x.opc = 9998; else add(cb->getCalledOperand()); }
                    if (auto* iv = dyn_cast<InvokeInst>(&in)) { x.bb1 = bbi[iv->getNormalDest()]; x.bb2 = bbi[iv->getUnwindDest()]; }
                    break; }
                case Instruction::Alloca: { auto* a = cast<AllocaInst>(&in); add(a->getArraySize()); x.bytes = DL->getTypeAllocSize(a->getAllocatedType()); x.off = (int64_t)a->getAlign().value(); break; }
                case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&in); add(e->getAggregateOperand()); for (unsigned i : e->indices()) x.idx.push_back(i); break; }
                case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&in); add(e->getAggregateOperand()); add(e->getInsertedValueOperand()); for (unsigned i : e->indices()) x.idx.push_back(i); break; }
                case Instruction::ShuffleVector: { auto* e = cast<ShuffleVectorInst>(&in); add(e->getOperand(0)); add(e->getOperand(1)); for (int i : e->getShuffleMask()) x.cases.push_back({0, i}); x.bytes = cast<FixedVectorType>(e->getOperand(0)->getType())->getNumElements(); break; }
                case Instruction::LandingPad: break;
                default:
                    for (auto& o : in.operands()) { if (isa<BasicBlock>(o.get())) continue; add(o.get()); }
                    if (auto* c = dyn_cast<CmpInst>(&in)) { x.pred = c->getPredicate(); }
                    if (in.getNumOperands()) x.w2 = scalarW(in.getOperand(0)->getType());
            }
            if (isa<StoreInst>(&in)) { x.ty = in.getOperand(0)->getType(); x.w = scalarW(x.ty); x.bytes = x.w ? (u64)DL->getTypeStoreSize(x.ty) : 0; }
            if (isa<LoadInst>(&in)) x.bytes = x.w ? (u64)DL->getTypeStoreSize(x.ty) : 0;
            db.in.push_back(std::move(x));
        }
        for (auto* pr : predecessors(&b)) {
            int pi = bbi[pr]; bool have = false; for (int q : db.preds) if (q == pi) have = true; if (have) continue;
            db.preds.push_back(pi); std::vector<std::pair<int, Op>> mv;
            for (auto* p : phis) mv.push_back({slot[p], mkOp(s, p->getIncomingValueForBlock(pr), slot)});
            db.phis.push_back(mv);
        }
    }
    return d;
}

// ------------------------------------------------------------------ execution helpers
static inline const Val& get(Frame& f, const Op& o) { return o.slot >= 0 ? f.regs[o.slot] : o.cv; }
static void gotoBB(State& s, int to) {
    Frame& f = s.st.back(); int from = f.bb; DBlock& b = f.f->bb[to]; b.seen = true;
    for (size_t i = 0; i < b.preds.size(); ++i) if (b.preds[i] == from) {
        auto& mv = b.phis[i];
        if (mv.size() == 1) f.regs[mv[0].first] = Val(get(f, mv[0].second));
        else if (!mv.empty()) { std::vector<Val> t; t.reserve(mv.size()); for (auto& m : mv) t.push_back(get(f, m.second)); for (size_t k = 0; k < mv.size(); ++k) f.regs[mv[k].first] = std::move(t[k]); }
        break;
    }
    f.bb = to; f.pc = 0;
}
static void popFrame(State& s) {
    static Obj* tomb = nullptr;
    if (!tomb) { tomb = new Obj; tomb->freed = true; tomb->kind = O_Stack; tomb->refs = 1000000; }
    for (uint32_t id : s.st.back().allocas) { ++tomb->refs; s.objs[id] = OP(tomb); }
    s.st.pop_back();
}
static void pathDone(State& s) {
    ++nPaths; if (s.steps > maxPathSteps) maxPathSteps = s.steps;
    if (samples.size() < 5 || (nPaths & (nPaths - 1)) == 0) { std::map<std::string, std::string> m; for (auto& p : valsOf(s, s.model)) m[p.first] = p.second; for (auto& n : s.notes) { u64 v = n.second.c; if (n.second.sym()) { ++X.evalStamp; v = (u64)X.eval(n.second.e, s.model); } m["note:" + n.first] = std::to_string(v); } if (samples.size() < 12) samples.push_back({s.tag, m}); }
    throw PathEnd{};
}
static void enter(State& s, Function* F, std::vector<Val>&& args) {
    if (F->isDeclaration()) unsup(s, "external function " + F->getName().str());
    DFunc* d = decode(s, F); d->seen = true;
    if (s.st.size() > 400) fail(s, "termination", "call stack deeper than 400 frames");
    Frame f; f.f = d; f.regs.resize(d->nslots);
    size_t na = F->arg_size();
    for (size_t i = 0; i < na && i < args.size(); ++i) f.regs[i] = args[i];
    for (size_t i = na; i < args.size(); ++i) f.va.push_back(args[i]);
    // byval arguments
    for (size_t i = 0; i < na; ++i) if (F->hasParamAttribute((unsigned)i, Attribute::ByVal)) {
        Type* t = F->getParamByValType((unsigned)i); u64 n = DL->getTypeAllocSize(t);
        Obj* o = newObj(s, n, 16, O_Stack); f.allocas.push_back((uint32_t)s.objs.size() - 1);
        u64 nb = o->base; Loc l = resolve(s, args[i], n, false); if (l.offE) unsup(s, "byval symbolic ptr");
        Obj* src = s.objs[l.id].p; Obj* dst = wr(s, objId(s, nb));
        for (u64 k = 0; k < n; ++k) setByte(dst, k, byteE(src, l.off + k));
        f.regs[i] = Val(nb);
    }
    s.st.push_back(std::move(f)); s.st.back().f->bb[0].seen = true;
}
static std::map<u64, int> tiId;
static u64 selId(u64 ti) { auto it = tiId.find(ti); if (it != tiId.end()) return it->second; int n = (int)tiId.size() + 1; tiId[ti] = n; return n; }
// unwind to the nearest handler
static void unwind(State& s) {
    popFrame(s);
    while (!s.st.empty()) {
        Frame& f = s.st.back(); DInst& c = f.f->bb[f.bb].in[f.pc];
        if (c.opc == Instruction::Invoke) {
            gotoBB(s, c.bb2);
            return;
        }
        popFrame(s);
    }
    // uncaught
    std::string n = addrName.count(s.inflight.ti) ? addrName[s.inflight.ti] : "?";
    report(s, "exception", "uncaught exception " + n, s.model); throw PathEnd{};
}
static void doThrow(State& s, u64 ptr, u64 ti) { // called while executing a call instruction in the top frame
    s.inflight = {ptr, ti}; s.excTi[ptr] = ti;
    // if current instruction is an invoke handle locally
    Frame& f = s.st.back(); DInst& c = f.f->bb[f.bb].in[f.pc];
    if (c.opc == Instruction::Invoke) { gotoBB(s, c.bb2); return; }
    // does any caller handle it? (uncaught => report at the throw site)
    bool any = false; for (size_t i = 0; i + 1 < s.st.size(); ++i) { Frame& g = s.st[i]; if (g.f->bb[g.bb].in[g.pc].opc == Instruction::Invoke) any = true; }
    if (!any) { std::string n = addrName.count(ti) ? addrName[ti] : "?"; fail(s, "exception", "uncaught exception " + n); }
    unwind(s);
}
static Obj* heapAlloc(State& s, const Val& size, u64 align, int how) {
    ++nAllocs;
    if (!size.sym()) {
        if (size.c > (1ull << 26)) return nullptr;
        if (s.failAlloc >= 0) { if (s.failAlloc == 0) { s.failAlloc = -1; return nullptr; } --s.failAlloc; }
        Obj* o = newObj(s, size.c, align, O_Heap); o->how = how; ++s.heapLive; s.heapBytes += size.c; return o;
    }
    E big = X.bin(K_Ult, X.cst(1ull << 26, 64), size.e);
    if (splitReexec(s, big)) return nullptr;
    if (s.failAlloc >= 0) { if (s.failAlloc == 0) { s.failAlloc = -1; return nullptr; } --s.failAlloc; }
    // maximum feasible size
    ++X.evalStamp; u64 lo = (u64)X.eval(size.e, s.model), hi = 1ull << 26;
    { std::vector<u128> m; while (lo < hi) { // exponential then binary search on "size > lo"
            int r = query(s, X.bin(K_Ult, X.cst(lo, 64), size.e), &m); if (r != 1) { hi = lo; break; }
            ++X.evalStamp; u64 v = (u64)X.eval(size.e, m); u64 mid = v + (hi - v) / 2;
            lo = v; if (mid > lo) { int q = query(s, X.bin(K_Ult, X.cst(mid, 64), size.e), &m); if (q == 1) { ++X.evalStamp; lo = (u64)X.eval(size.e, m); } else if (q == 0) hi = mid; else break; } } }
    Obj* o = newObj(s, lo, align, O_Heap); o->sizeE = size.e; o->how = how; ++s.heapLive; return o;
}
static void heapFree(State& s, const Val& p, const Val* sz, const char* what) {
    u64 a = concretize(s, p); if (!a) return;
    int64_t id = objId(s, a);
    if (id < 0 || !s.objs[id].p) fail(s, "memory", "free of wild pointer");
    Obj* o = s.objs[id].p;
    if (o->freed) fail(s, "memory", "double free");
    if (o->kind != O_Heap || o->base != a) fail(s, "memory", "free of a pointer not obtained from the allocator");
    if (sz && !(o->sizeE)) { E c = X.eq(toE(*sz, 64), X.cst(o->size, 64)); require(s, c, "memory", "sized deallocation with a size different from the allocation's"); }
    else if (sz) { require(s, X.eq(toE(*sz, 64), o->sizeE), "memory", "sized deallocation with a size different from the allocation's"); }
    o = wr(s, id); o->freed = true; o->drop(); o->nsym = 0; --s.heapLive; s.heapBytes -= o->size;
    (void)what;
}
static std::string cstr(State& s, const Val& p) {
    std::string r; if (p.sym()) return "?"; u64 a = p.c; int64_t id = objId(s, a); if (id < 0 || !s.objs[id].p) return "?"; Obj* o = s.objs[id].p; u64 off = a - o->base;
    for (; off < o->size && o->data[off]; ++off) r += (char)o->data[off]; return r;
}
static void memCopy(State& s, const Val& d, const Val& sr, u64 n, bool overlapOk) {
    if (!n) return;
    Loc ls = resolve(s, sr, n, false); Loc ld = resolve(s, d, n, true);
    u64 so = ls.offE ? 0 : ls.off, dof = ld.offE ? 0 : ld.off;
    if (ls.offE) so = concretize(s, mk(ls.offE)); if (ld.offE) dof = concretize(s, mk(ld.offE));
    if (!overlapOk && ls.id == ld.id && so != dof && (so < dof ? dof - so : so - dof) < n) fail(s, "memory", "overlapping memcpy");
    Obj* src = s.objs[ls.id].p;
    if (!src->nsym) {
        std::vector<uint8_t> t(src->data + so, src->data + so + n); Obj* dst = wr(s, ld.id);
        if (dst->nsym) for (u64 i = 0; i < n; ++i) if (dst->sy[dof + i]) { dst->sy[dof + i] = nullptr; --dst->nsym; }
        memcpy(dst->data + dof, t.data(), n); return;
    }
    std::vector<E> t(n); for (u64 i = 0; i < n; ++i) t[i] = byteE(src, so + i);
    Obj* dst = wr(s, ld.id); for (u64 i = 0; i < n; ++i) setByte(dst, dof + i, t[i]);
}
static void memSet(State& s, const Val& d, const Val& v, u64 n) {
    if (!n) return; Loc l = resolve(s, d, n, true); u64 of = l.offE ? concretize(s, mk(l.offE)) : l.off; Obj* o = wr(s, l.id);
    if (!v.sym() && !o->nsym) { memset(o->data + of, (int)v.c, n); return; }
    E b = X.extract(toE(v, v.sym() ? v.e->w : 32), 0, 8); for (u64 i = 0; i < n; ++i) setByte(o, of + i, b);
}

// generic scalar binary op
static Val binop(State& s, Kind k, unsigned w, const Val& a, const Val& b) {
    if (!a.sym() && !b.sym() && w <= 64) {
        u64 x = a.c, y = b.c, m = m64(w);
        switch (k) {
            case K_Add: return Val((x + y) & m); case K_Sub: return Val((x - y) & m); case K_Mul: return Val((x * y) & m);
            case K_And: return Val(x & y); case K_Or: return Val(x | y); case K_Xor: return Val(x ^ y);
            case K_Shl: return Val(y >= w ? 0 : (x << y) & m); case K_LShr: return Val(y >= w ? 0 : x >> y);
            default: return Val((u64)ExprPool::fold(k, w, w, x, y));
        }
    }
    return mk(X.bin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b) {
    if (!a.sym() && !b.sym() && w <= 64) {
        u64 x = a.c, y = b.c; int64_t sx = (int64_t)(w == 64 ? x : (u64)(int64_t)sextw(x, w)), sy = (int64_t)(w == 64 ? y : (u64)(int64_t)sextw(y, w));
        switch (pred) {
            case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y);
            case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y);
            case CmpInst::ICMP_SGT: return Val(sx > sy); case CmpInst::ICMP_SGE: return Val(sx >= sy); case CmpInst::ICMP_SLT: return Val(sx < sy); default: return Val(sx <= sy);
        }
    }
    E x = toE(a, w), y = toE(b, w); E r;
    switch (pred) {
        case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.notE(X.eq(x, y)); break;
        case CmpInst::ICMP_UGT: r = X.bin(K_Ult, y, x); break; case CmpInst::ICMP_UGE: r = X.bin(K_Ule, y, x); break;
        case CmpInst::ICMP_ULT: r = X.bin(K_Ult, x, y); break; case CmpInst::ICMP_ULE: r = X.bin(K_Ule, x, y); break;
        case CmpInst::ICMP_SGT: r = X.bin(K_Slt, y, x); break; case CmpInst::ICMP_SGE: r = X.bin(K_Sle, y, x); break;
        case CmpInst::ICMP_SLT: r = X.bin(K_Slt, x, y); break; default: r = X.bin(K_Sle, x, y); break;
    }
    return mk(r);
}
static long double ld80(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static Val mk80(long double d) { u128 v = 0; memcpy(&v, &d, 10); Val r; r.e = X.cst(v, 80); return r; }
static Val fcmp(State& s, unsigned pred, unsigned w, const Val& a, const Val& b) {
    if (w == 80) {
        if (!a.e->isC() || !b.e->isC()) unsup(s, "symbolic x86_fp80");
        long double x = ld80(a.e->v), y = ld80(b.e->v); bool un = std::isnan(x) || std::isnan(y), r;
        switch (pred) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: r = pred == CmpInst::FCMP_TRUE; }
        return Val(r);
    }
    E x = toE(a, w), y = toE(b, w); auto B = [&](Kind k, E p, E q) { return X.bin(k, p, q); };
    E un = B(K_FUno, x, y), r;
    switch (pred) {
        case CmpInst::FCMP_OEQ: r = B(K_FOeq, x, y); break; case CmpInst::FCMP_OGT: r = B(K_FOlt, y, x); break; case CmpInst::FCMP_OGE: r = B(K_FOle, y, x); break;
        case CmpInst::FCMP_OLT: r = B(K_FOlt, x, y); break; case CmpInst::FCMP_OLE: r = B(K_FOle, x, y); break; case CmpInst::FCMP_ONE: r = X.orE(B(K_FOlt, x, y), B(K_FOlt, y, x)); break;
        case CmpInst::FCMP_ORD: r = X.notE(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = X.orE(un, B(K_FOeq, x, y)); break;
        case CmpInst::FCMP_UGT: r = X.notE(B(K_FOle, x, y)); break; case CmpInst::FCMP_UGE: r = X.notE(B(K_FOlt, x, y)); break; case CmpInst::FCMP_ULT: r = X.notE(B(K_FOle, y, x)); break; case CmpInst::FCMP_ULE: r = X.notE(B(K_FOlt, y, x)); break;
        case CmpInst::FCMP_UNE: r = X.notE(B(K_FOeq, x, y)); break; case CmpInst::FCMP_TRUE: r = X.cst(1, 1); break; default: r = X.cst(0, 1);
    }
    return mk(r);
}
static Val selectV(State& s, const Val& c, const Val& a, const Val& b, Type* t) {
    if (!c.sym()) return c.c ? a : b;
    unsigned w = scalarW(t);
    if (w) return mk(X.ite(c.e, toE(a, w), toE(b, w)));
    // aggregate: element-wise
    std::vector<Type*> ts; if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) ts.push_back(e); else if (auto* at = dyn_cast<ArrayType>(t)) ts.assign(at->getNumElements(), at->getElementType()); else if (auto* vt = dyn_cast<FixedVectorType>(t)) ts.assign(vt->getNumElements(), vt->getElementType()); else unsup(s, "select type");
    Val r = mkAgg(ts.size()); for (size_t i = 0; i < ts.size(); ++i) (*r.agg)[i] = selectV(s, c, (*a.agg)[i], (*b.agg)[i], ts[i]); return r;
}
static Val castV(State& s, unsigned opc, const Val& a, unsigned sw, unsigned dw, bool srcFp, bool dstFp) {
    if (sw == 80 || dw == 80) {
        if (a.sym() && !a.e->isC()) unsup(s, "symbolic x86_fp80");
        u128 av = a.sym() ? a.e->v : (u128)a.c;
        switch (opc) {
            case Instruction::FPExt: return mk80(ExprPool::f_of(av, sw)); case Instruction::FPTrunc: return Val((u64)ExprPool::f_to((double)ld80(av), dw));
            case Instruction::SIToFP: return mk80((long double)(int64_t)sextw(av, sw)); case Instruction::UIToFP: return mk80((long double)(u64)av);
            case Instruction::FPToSI: return Val((u64)(int64_t)ld80(av) & m64(dw)); case Instruction::FPToUI: return Val((u64)ld80(av) & m64(dw)); default: unsup(s, "fp80 cast");
        }
    }
    switch (opc) {
        case Instruction::Trunc: if (!a.sym()) return Val(a.c & m64(dw)); return mk(X.extract(a.e, 0, dw));
        case Instruction::ZExt: if (!a.sym() && dw <= 64) return a; { E e = X.zext(toE(a, sw), dw); return mk(e); }
        case Instruction::SExt: if (!a.sym() && dw <= 64) return Val((u64)(int64_t)sextw(a.c, sw) & m64(dw)); return mk(X.sext(toE(a, sw), dw));
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (!a.sym()) return Val(a.c & m64(dw)); if (dw < sw) return mk(X.extract(a.e, 0, dw)); return mk(X.zext(a.e, dw));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
        case Instruction::FPToSI: case Instruction::FPToUI: { Kind k = opc == Instruction::FPToSI ? K_FToSI : K_FToUI; E x = toE(a, sw); if (x->isC()) return mk(X.cst(ExprPool::fold(k, dw, sw, x->v, 0), dw)); return mk(X.raw(k, dw, x)); }
        case Instruction::SIToFP: case Instruction::UIToFP: { Kind k = opc == Instruction::SIToFP ? K_SIToF : K_UIToF; E x = toE(a, sw); if (x->isC()) return mk(X.cst(ExprPool::fold(k, dw, sw, x->v, 0), dw)); return mk(X.raw(k, dw, x)); }
        case Instruction::FPExt: case Instruction::FPTrunc: { E x = toE(a, sw); if (x->isC()) return mk(X.cst(ExprPool::fold(K_FToF, dw, sw, x->v, 0), dw)); return mk(X.raw(K_FToF, dw, x)); }
    }
    unsup(s, "cast");
}
static Kind fk(unsigned opc) { switch (opc) { case Instruction::FAdd: return K_FAdd; case Instruction::FSub: return K_FSub; case Instruction::FMul: return K_FMul; default: return K_FDiv; } }
static Kind ik(unsigned opc) {
    switch (opc) { case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul; case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem;
        case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor; case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; default: return K_AShr; } }
static Val mapVec(const Val& a, const Val& b, std::function<Val(const Val&, const Val&)> f) { Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); ++i) (*r.agg)[i] = f((*a.agg)[i], b.agg ? (*b.agg)[i] : Val()); return r; }

static E popcountE(E x) { unsigned w = x->w; E r = X.cst(0, w); for (unsigned i = 0; i < w; ++i) r = X.bin(K_Add, r, X.zext(X.extract(x, i, 1), w)); return r; }
static E cttzE(E x) { unsigned w = x->w; E r = X.cst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.eq(X.extract(x, i, 1), X.cst(1, 1)), X.cst(i, w), r); return r; }
static E ctlzE(E x) { unsigned w = x->w; E r = X.cst(w, w); for (unsigned i = 0; i < w; ++i) r = X.ite(X.eq(X.extract(x, i, 1), X.cst(1, 1)), X.cst(w - 1 - i, w), r); return r; }

static bool execIntrinsic(State& s, Frame& f, DInst& in, Val& res, Type* laneTy = nullptr) { // returns true if res set
    auto A = [&](unsigned i) -> const Val& { return get(f, in.ops[i]); };
    unsigned w = in.w;
    Type* rt = in.I->getType();
    switch (in.iid) {
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
            Val v = A(0); Val r = (*v.agg)[0]; Type* et = rt; if (!w) unsup(s, "vector reduce type");
            for (size_t i = 1; i < v.agg->size(); ++i) { const Val& b = (*v.agg)[i]; switch (in.iid) {
                case Intrinsic::vector_reduce_add: r = binop(s, K_Add, w, r, b); break; case Intrinsic::vector_reduce_mul: r = binop(s, K_Mul, w, r, b); break;
                case Intrinsic::vector_reduce_and: r = binop(s, K_And, w, r, b); break; case Intrinsic::vector_reduce_or: r = binop(s, K_Or, w, r, b); break; case Intrinsic::vector_reduce_xor: r = binop(s, K_Xor, w, r, b); break;
                case Intrinsic::vector_reduce_smax: r = selectV(s, icmp(CmpInst::ICMP_SGT, w, r, b), r, b, et); break; case Intrinsic::vector_reduce_smin: r = selectV(s, icmp(CmpInst::ICMP_SLT, w, r, b), r, b, et); break;
                case Intrinsic::vector_reduce_umax: r = selectV(s, icmp(CmpInst::ICMP_UGT, w, r, b), r, b, et); break; default: r = selectV(s, icmp(CmpInst::ICMP_ULT, w, r, b), r, b, et); break; } }
            res = r; return true; }
        case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: { Val r = A(0), v = A(1); for (size_t i = 0; i < v.agg->size(); ++i) r = mk(X.bin(in.iid == Intrinsic::vector_reduce_fadd ? K_FAdd : K_FMul, toE(r, w), toE((*v.agg)[i], w))); res = r; return true; }
        default: break;
    }
    if (rt->isVectorTy()) { // element-wise intrinsics, one lane at a time
        switch (in.iid) { case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ctpop: case Intrinsic::cttz: case Intrinsic::ctlz: case Intrinsic::bswap: case Intrinsic::sqrt: case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::fmuladd: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::fshl: case Intrinsic::fshr: break;
            default: unsup(s, "vector intrinsic " + in.callee->getName().str()); }
        if (!laneTy) { auto* vt = dyn_cast<FixedVectorType>(rt); if (!vt) unsup(s, "scalable vector"); unsigned n = vt->getNumElements(); Val r = mkAgg(n); unsigned ew = scalarW(vt->getElementType());
            for (unsigned i = 0; i < n; ++i) { DInst lane; lane.I = in.I; lane.iid = in.iid; lane.callee = in.callee; lane.w = ew; lane.ops.resize(in.ops.size()); for (size_t k = 0; k < in.ops.size(); ++k) { Val v = A((unsigned)k); lane.ops[k].cv = v.agg ? (*v.agg)[i] : v; } Val t; execIntrinsic(s, f, lane, t, vt->getElementType()); (*r.agg)[i] = t; }
            res = r; return true; }
        rt = laneTy;
    }
    switch (in.iid) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe: case Intrinsic::sideeffect: return true;
        case Intrinsic::stacksave: res = Val(0); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ssa_copy: res = A(0); return true;
        case Intrinsic::is_constant: res = Val(0); return true;
        case Intrinsic::objectsize: res = Val(m64(w)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(s, A(0), A(1), concretize(s, A(2)), in.iid == Intrinsic::memmove || true); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: { Val v = A(1); if (v.sym()) {} memSet(s, A(0), v, concretize(s, A(2))); return true; }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            unsigned p = in.iid == Intrinsic::umin ? CmpInst::ICMP_ULT : in.iid == Intrinsic::umax ? CmpInst::ICMP_UGT : in.iid == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
            res = selectV(s, icmp(p, w, A(0), A(1)), A(0), A(1), rt); return true; }
        case Intrinsic::abs: { Val z; if (w > 64) z.e = X.cst(0, w); res = selectV(s, icmp(CmpInst::ICMP_SLT, w, A(0), z), binop(s, K_Sub, w, z, A(0)), A(0), rt); return true; }
        case Intrinsic::usub_sat: res = selectV(s, icmp(CmpInst::ICMP_UGT, w, A(0), A(1)), binop(s, K_Sub, w, A(0), A(1)), Val(0), rt); return true;
        case Intrinsic::uadd_sat: { Val sum = binop(s, K_Add, w, A(0), A(1)); res = selectV(s, icmp(CmpInst::ICMP_ULT, w, sum, A(0)), Val(m64(w)), sum, rt); return true; }
        case Intrinsic::ctpop: { E x = toE(A(0), w); res = x->isC() ? Val(__builtin_popcountll((u64)x->v)) : mk(popcountE(x)); return true; }
        case Intrinsic::cttz: { E x = toE(A(0), w); res = mk(cttzE(x)); return true; }
        case Intrinsic::ctlz: { E x = toE(A(0), w); res = mk(ctlzE(x)); return true; }
        case Intrinsic::bswap: { E x = toE(A(0), w); E r = X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(x, i, 8)); res = mk(r); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 sh = concretize(s, A(2)) % w; E c = X.concat(toE(A(0), w), toE(A(1), w)); if (in.iid == Intrinsic::fshl) res = mk(X.extract(c, w - (unsigned)sh == w ? w : w - (unsigned)sh, w)); else res = mk(X.extract(c, (unsigned)sh, w)); return true; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ow = scalarW(cast<StructType>(rt)->getElementType(0)); E x = toE(A(0), ow), y = toE(A(1), ow); res = mkAgg(2); if (ow > 63) { if (ow > 64) unsup(s, "overflow width"); }
            bool sg = in.iid == Intrinsic::sadd_with_overflow || in.iid == Intrinsic::ssub_with_overflow || in.iid == Intrinsic::smul_with_overflow;
            Kind k = (in.iid == Intrinsic::uadd_with_overflow || in.iid == Intrinsic::sadd_with_overflow) ? K_Add : (in.iid == Intrinsic::usub_with_overflow || in.iid == Intrinsic::ssub_with_overflow) ? K_Sub : K_Mul;
            unsigned xw = k == K_Mul ? 2 * ow : ow + 1; E ex = sg ? X.sext(x, xw) : X.zext(x, xw), ey = sg ? X.sext(y, xw) : X.zext(y, xw);
            E r = X.bin(k, x, y); E er = X.bin(k, ex, ey); E ov = X.notE(X.eq(er, sg ? X.sext(r, xw) : X.zext(r, xw)));
            if (!sg && k == K_Sub) ov = X.bin(K_Ult, x, y); if (!sg && k == K_Add) ov = X.bin(K_Ult, r, x);
            if (!sg && k == K_Mul && x->isC() != y->isC()) { E cc = x->isC() ? x : y, vv = x->isC() ? y : x; ov = cc->v == 0 ? X.cst(0, 1) : X.bin(K_Ult, X.cst(maskw(ow) / cc->v, ow), vv); }
            (*res.agg)[0] = mk(r); (*res.agg)[1] = mk(ov); return true; }
        case Intrinsic::sqrt: { E x = toE(A(0), w); res = mk(X.fp1(K_FSqrt, w, x)); return true; }
        case Intrinsic::fabs: if (w == 80) { res = mk80(fabsl(ld80(A(0).e->v))); return true; } res = mk(X.fp1(K_FAbs, w, toE(A(0), w))); return true;
        case Intrinsic::floor: if (w == 80) { res = mk80(floorl(ld80(A(0).e->v))); return true; } res = mk(X.fp1(K_FFloor, w, toE(A(0), w))); return true;
        case Intrinsic::ceil: res = mk(X.fp1(K_FCeil, w, toE(A(0), w))); return true;
        case Intrinsic::trunc: res = mk(X.fp1(K_FTrunc, w, toE(A(0), w))); return true;
        case Intrinsic::fmuladd: res = mk(X.bin(K_FAdd, X.bin(K_FMul, toE(A(0), w), toE(A(1), w)), toE(A(2), w))); return true;
        case Intrinsic::maxnum: res = selectV(s, fcmp(s, CmpInst::FCMP_OLT, w, A(0), A(1)), A(1), A(0), rt); return true;
        case Intrinsic::minnum: res = selectV(s, fcmp(s, CmpInst::FCMP_OLT, w, A(0), A(1)), A(0), A(1), rt); return true;
        case Intrinsic::eh_typeid_for: res = Val(selId(A(0).c)); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "undefined", "trap reached (undefined behaviour check)");
        case Intrinsic::vastart: unsup(s, "varargs"); case Intrinsic::vaend: return true;
        case Intrinsic::ptrmask: res = binop(s, K_And, 64, A(0), A(1)); return true;
        case Intrinsic::is_fpclass: { unsup(s, "is_fpclass"); }
        default: break;
    }
    unsup(s, "intrinsic " + in.callee->getName().str());
}

static void finishCall(State& s, DInst& in, const Val& v) {
    Frame& f = s.st.back(); if (in.dst >= 0) f.regs[in.dst] = v;
    if (in.opc == Instruction::Invoke) gotoBB(s, in.bb1); else ++f.pc;
}
static void throwBuiltin(State& s, const std::string& ti) {
    u64 t = extGlobal(s, ti); Obj* o = newObj(s, 64, 16, O_Ext); doThrow(s, o->base, t);
}

static void execBuiltin(State& s, DInst& in) {
    Frame& f = s.st.back();
    auto A = [&](unsigned i) -> const Val& { return get(f, in.ops[i]); };
    switch (in.builtin) {
        case B_sym: {
            std::string n = cstr(s, A(0)); unsigned w = (unsigned)A(1).c; int k = s.nsym[n]++; if (k) n += "#" + std::to_string(k);
            static std::map<std::pair<std::string, unsigned>, E> cache; E& e = cache[{n, w}]; if (!e) e = X.var(n, w);
            if (s.model.size() < X.vars.size()) s.model.resize(X.vars.size(), 0);
            s.used.push_back(e);
            finishCall(s, in, mk(X.zext(e, 64))); return; }
        case B_assume: { Val v = A(0); E c = X.notE(X.eq(toE(v, in.callee->getArg(0)->getType()->getIntegerBitWidth()), X.cst(0, in.callee->getArg(0)->getType()->getIntegerBitWidth())));
            if (c->isC()) { if (!c->v) { ++nAssume0; throw PathEnd{}; } }
            else { std::vector<u128> m; int r = may(s, c, &m); if (r == -1) unsupported["solver unknown in assume"]++; if (r != 1) { ++nAssume0; throw PathEnd{}; } s.model = m; addPc(s, c); }
            finishCall(s, in, Val()); return; }
        case B_assert: { unsigned w = in.callee->getArg(0)->getType()->getIntegerBitWidth(); Val v = A(0); ++nAsserts; std::string msg = cstr(s, A(1));
            if (getenv("VP_DUMP")) fprintf(stderr, "%s: %s\n", msg.c_str(), Z3_ast_to_string(X.ctx, X.bv(toE(v, w))));
            E c = X.notE(X.eq(toE(v, w), X.cst(0, w))); if (!c->isC()) ++nAssertsSolver;
            require(s, c, "assert", msg); finishCall(s, in, Val()); return; }
        case B_concretize: { Val v = A(0); u64 x = concretize(s, v); finishCall(s, in, Val(x)); return; }
        case B_select: { E c = X.notE(X.eq(toE(A(0), 64), X.cst(0, 64))); finishCall(s, in, mk(X.ite(c, toE(A(1), 64), toE(A(2), 64)))); return; }
        case B_issym: finishCall(s, in, Val(A(0).sym())); return;
        case B_reach: { reach[cstr(s, A(0))]++; finishCall(s, in, Val()); return; }
        case B_note: { s.notes.push_back({cstr(s, A(0)), A(1)}); finishCall(s, in, Val()); return; }
        case B_param: { auto it = params.find(cstr(s, A(0))); finishCall(s, in, it == params.end() ? A(1) : Val((u64)it->second)); return; }
        case B_live: finishCall(s, in, Val(s.heapLive)); return;
        case B_steps: s.stepBase = s.steps + A(0).c; finishCall(s, in, Val()); return;
        case B_failalloc: s.failAlloc = (int)A(0).c; finishCall(s, in, Val()); return;
        case B_end: pathDone(s);
        case B_new: case B_newal: case B_newnt: case B_newalnt: {
            u64 al = 16; if (in.builtin == B_newal || in.builtin == B_newalnt) { al = concretize(s, A(1)); }
            if (al & (al - 1)) fail(s, "memory", "allocation with non-power-of-two alignment");
            Obj* o = heapAlloc(s, A(0), al, 1);
            if (!o) { if (in.builtin == B_newnt || in.builtin == B_newalnt) { finishCall(s, in, Val(0)); return; } throwBuiltin(s, "_ZTISt9bad_alloc"); return; }
            o->how = (in.builtin == B_newal || in.builtin == B_newalnt) ? 2 : 1;
            finishCall(s, in, Val(o->base)); return; }
        case B_malloc: { Obj* o = heapAlloc(s, A(0), 16, 0); finishCall(s, in, Val(o ? o->base : 0)); return; }
        case B_aligned_alloc: { u64 al = concretize(s, A(0)); Obj* o = heapAlloc(s, A(1), al, 0); finishCall(s, in, Val(o ? o->base : 0)); return; }
        case B_calloc: { u64 n = concretize(s, A(0)), m = concretize(s, A(1)); Obj* o = heapAlloc(s, Val(n * m), 16, 0); if (o) memset(o->data, 0, o->size); finishCall(s, in, Val(o ? o->base : 0)); return; }
        case B_free: case B_del: heapFree(s, A(0), nullptr, "free"); finishCall(s, in, Val()); return;
        case B_delal: heapFree(s, A(0), nullptr, "free"); finishCall(s, in, Val()); return;
        case B_delsz: case B_delszal: { Val z = A(1); heapFree(s, A(0), &z, "free"); finishCall(s, in, Val()); return; }
        case B_memcpy: case B_memmove: { Val d = A(0); memCopy(s, A(0), A(1), concretize(s, A(2)), in.builtin == B_memmove); finishCall(s, in, d); return; }
        case B_memset: { Val d = A(0); memSet(s, A(0), A(1), concretize(s, A(2))); finishCall(s, in, d); return; }
        case B_memcmp: { u64 n = concretize(s, A(2)); E r = X.cst(0, 32); if (n) { for (u64 i = n; i-- > 0;) { Val a = loadScalar(s, addOff(A(0), i), 8, 1), b = loadScalar(s, addOff(A(1), i), 8, 1); E x = toE(a, 8), y = toE(b, 8); r = X.ite(X.eq(x, y), r, X.bin(K_Sub, X.zext(x, 32), X.zext(y, 32))); } } finishCall(s, in, mk(r)); return; }
        case B_strlen: { u64 n = 0; for (;; ++n) { Val a = loadScalar(s, addOff(A(0), n), 8, 1); if (a.sym()) { if (splitReexec(s, X.eq(a.e, X.cst(0, 8)))) break; } else if (!a.c) break; } finishCall(s, in, Val(n)); return; }
        case B_memchr: { u64 n = concretize(s, A(2)); Val r(0); for (u64 i = 0; i < n; ++i) { Val a = loadScalar(s, addOff(A(0), i), 8, 1); Val ch = A(1); E c = X.eq(toE(a, 8), X.extract(toE(ch, 32), 0, 8)); if (splitReexec(s, c)) { r = addOff(A(0), i); break; } } finishCall(s, in, r); return; }
        case B_abort: fail(s, "abort", "abort() / library assertion reached");
        case B_assertfail: fail(s, "lib-assert", "library assertion failed: " + cstr(s, A(0)));
        case B_terminate: case B_callterm: fail(s, "exception", "std::terminate called");
        case B_throwname: throwBuiltin(s, throwNames[in.callee->getName().str()]); return;
        case B_cxa_alloc: { u64 n = concretize(s, A(0)); Obj* o = newObj(s, n + 64, 16, O_Ext); finishCall(s, in, Val(o->base)); return; }
        case B_cxa_free: finishCall(s, in, Val()); return;
        case B_cxa_throw: { u64 p = A(0).c, t = A(1).c; doThrow(s, p, t); return; }
        case B_cxa_begin: { u64 p = A(0).c; s.caught.push_back({p, s.excTi[p]}); finishCall(s, in, Val(p)); return; }
        case B_cxa_end: { if (!s.caught.empty()) s.caught.pop_back(); finishCall(s, in, Val()); return; }
        case B_cxa_rethrow: { Exc e = s.caught.empty() ? Exc{} : s.caught.back(); doThrow(s, e.ptr, e.ti); return; }
        case B_curexc: { Val sret = A(0); storeScalar(s, sret, 64, 8, Val(s.caught.empty() ? 0 : s.caught.back().ptr)); finishCall(s, in, Val()); return; }
        case B_rethrowexc: { Val p = loadScalar(s, A(0), 64, 8); doThrow(s, p.c, s.excTi[p.c]); return; }
        case B_unexp: { Val p = loadScalar(s, A(1), 64, 8); storeScalar(s, A(0), 64, 8, p); finishCall(s, in, Val()); return; }
        case B_nop: finishCall(s, in, A(0)); return;
        case B_ret0: finishCall(s, in, Val(0)); return;
        case B_sqrt: finishCall(s, in, mk(X.fp1(K_FSqrt, 64, toE(A(0), 64)))); return;
        case B_sqrtf: finishCall(s, in, mk(X.fp1(K_FSqrt, 32, toE(A(0), 32)))); return;
        case B_fabs: finishCall(s, in, mk(X.fp1(K_FAbs, 64, toE(A(0), 64)))); return;
        case B_floor: finishCall(s, in, mk(X.fp1(K_FFloor, 64, toE(A(0), 64)))); return;
        case B_ceil: finishCall(s, in, mk(X.fp1(K_FCeil, 64, toE(A(0), 64)))); return;
    }
    unsup(s, "builtin " + in.callee->getName().str());
}

static void call(State& s, DInst& in) {
    Frame& f = s.st.back();
    if (in.iid != Intrinsic::not_intrinsic) { Val r; execIntrinsic(s, f, in, r); finishCall(s, in, r); return; }
    if (in.builtin >= 0) { execBuiltin(s, in); return; }
    Function* F = in.callee; size_t n = in.ops.size();
    if (!F) {
        Val p = get(f, in.ops.back()); --n; u64 a = concretize(s, p); int64_t id = objId(s, a);
        if (id < 0 || !s.objs[id].p || s.objs[id].p->kind != O_Func) fail(s, "memory", "call through an invalid function pointer");
        F = s.objs[id].p->fn;
        auto bi = builtins.find(F->getName().str());
        if (bi != builtins.end()) { DInst tmp = in; tmp.callee = F; tmp.builtin = bi->second; execBuiltin(s, tmp); return; }
    }
    std::vector<Val> args; args.reserve(n); for (size_t i = 0; i < n; ++i) args.push_back(get(f, in.ops[i]));
    if (F->isDeclaration()) { std::string nm = F->getName().str(); if (nm.rfind("_ZNSt", 0) == 0 && nm.find("D") != std::string::npos && (nm.size() > 4 && (nm.substr(nm.size() - 4) == "D1Ev" || nm.substr(nm.size() - 4) == "D2Ev"))) { finishCall(s, in, Val()); return; } }
    enter(s, F, std::move(args));
}

// ---- merging of small side-effect-free-or-store-only diamonds: both arms are executed and joined with ite ----
static void step(State& s);
static bool gMerge = true; static u64 nMerges = 0;
static bool armOk(DFunc* d, int b, int from, int& next) {
    DBlock& B = d->bb[b]; if (B.preds.size() != 1 || B.preds[0] != from || B.in.size() > 12) return false;
    for (size_t i = 0; i + 1 < B.in.size(); ++i) { DInst& x = B.in[i]; switch (x.opc) {
        case Instruction::Load: case Instruction::Store: case Instruction::GetElementPtr: case Instruction::ICmp: case Instruction::Select: case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
            if (x.opc != Instruction::GetElementPtr && !x.w && x.opc != Instruction::Store) return false; if (x.opc == Instruction::Store && !x.w) return false; if (x.I->getType()->isVectorTy()) return false; break;
        default: return false; } }
    DInst& l = B.in.back(); if (l.opc != Instruction::Br || l.bb2 >= 0) return false; next = l.bb1; return true;
}
static bool okAddr(State& s, const Val& a, u64 n, bool write) {
    if (a.sym()) return false; int64_t id = objId(s, a.c); if (id < 0 || !s.objs[id].p) return false; Obj* o = s.objs[id].p; if (o->freed || o->sizeE || (write && o->ro)) return false;
    u64 off = a.c - o->base; return off <= o->size && n <= o->size - off;
}
typedef std::map<std::pair<int64_t, u64>, E> MemLog;
static bool runArm(State& s, int b, int from, int M, MemLog& log) {
    Frame& f = s.st.back();
    if (b == M) { gotoBB(s, M); return true; }
    gotoBB(s, b); DBlock& B = f.f->bb[b]; (void)from;
    while (f.pc + 1 < (int)B.in.size()) {
        DInst& x = B.in[f.pc];
        if (x.opc == Instruction::Load && !okAddr(s, get(f, x.ops[0]), x.bytes, false)) return false;
        if (x.opc == Instruction::Store) { Val a = get(f, x.ops[1]); if (!okAddr(s, a, x.bytes, true)) return false; int64_t id = objId(s, a.c); Obj* o = s.objs[id].p; u64 off = a.c - o->base; for (u64 i = 0; i < x.bytes; ++i) log.emplace(std::make_pair(id, off + i), byteE(o, off + i)); }
        if (x.opc == Instruction::Select && get(f, x.ops[0]).agg) return false;
        step(s);
    }
    gotoBB(s, M); return true;
}
static E mergeByte(E c, E t, E f) {
    if (t == f) return t;
    E bits[64]; unsigned same = 0, w = t->w; for (unsigned i = 0; i < w; ++i) { E a = X.extract(t, i, 1), b = X.extract(f, i, 1); if (a == b) ++same; bits[i] = X.ite(c, a, b); }
    if (same + 1 < w) return X.raw(K_Ite, w, c, t, f);
    E r = bits[0]; for (unsigned i = 1; i < w; ++i) r = X.concat(bits[i], r); return r;
}
static bool tryMerge(State& s, DInst& in, E c) {
    if (!gMerge || in.merge == 2) return false;
    Frame& f = s.st.back(); int from = f.bb; int T = in.bb1, F = in.bb2, nt = -1, nf = -1, M;
    bool tOk = armOk(f.f, T, from, nt), fOk = armOk(f.f, F, from, nf);
    if (T == F) { in.merge = 2; return false; }
    if (tOk && fOk && nt == nf) M = nt; else if (tOk && nt == F) M = F; else if (fOk && nf == T) M = T; else { in.merge = 2; return false; }
    if (M == from) { in.merge = 2; return false; }
    if (!in.merge) { // every phi of the join must be a scalar
        for (auto& I : *f.f->bb[M].B) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; if (!scalarW(p->getType()) || scalarW(p->getType()) > 64) { in.merge = 2; return false; } }
        in.merge = 1;
    }
    std::vector<Val> regs0 = f.regs; int pc0 = f.pc; MemLog lt, lf; auto undo = [&](MemLog& l) { for (auto& p : l) setByte(wr(s, p.first.first), p.first.second, p.second); };
    auto reset = [&] { s.st.back().regs = regs0; s.st.back().bb = from; s.st.back().pc = pc0; };
    bool ok = runArm(s, T == M ? M : T, from, M, lt); MemLog newT; for (auto& p : lt) newT[p.first] = byteE(s.objs[p.first.first].p, p.first.second);
    std::vector<Val> regsT = s.st.back().regs; undo(lt); reset(); if (!ok) return false;
    ok = runArm(s, F == M ? M : F, from, M, lf); if (!ok) { undo(lf); reset(); return false; }
    // only joins that amount to writing single bits: anything else is better explored path by path
    Frame& g = s.st.back(); DBlock& MB = g.f->bb[M]; size_t k = 0; bool fine = true; std::vector<std::pair<int, E>> phiV;
    for (auto& I : *MB.B) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; int dst = MB.phis[0][k].first; ++k; const Val& a = regsT[dst]; const Val& b = g.regs[dst]; if (a.e == b.e && a.c == b.c) continue; unsigned w = scalarW(p->getType());
        auto isOp = [&](unsigned o1, unsigned o2) { int seen = 0; for (unsigned q = 0; q < p->getNumIncomingValues(); ++q) if (auto* bo = dyn_cast<BinaryOperator>(p->getIncomingValue(q))) seen |= bo->getOpcode() == o1 ? 1 : bo->getOpcode() == o2 ? 2 : 0; return seen == 3; };
        if (w < 8 || w > 64 || !isOp(Instruction::Or, Instruction::And)) { fine = false; break; }
        E m = mergeByte(c, toE(a, w), toE(b, w)); if (m->k == K_Ite) fine = false; phiV.push_back({dst, m}); }
    if (phiV.empty() && newT.empty() && lf.empty()) fine = false;
    MemLog merged;
    auto joinByte = [&](std::pair<int64_t, u64> at, E tv, E fv) { E m = mergeByte(c, tv, fv); if (m->k == K_Ite && tv != fv) fine = false; merged[at] = m; };
    if (fine) { for (auto& p : newT) joinByte(p.first, p.second, byteE(s.objs[p.first.first].p, p.first.second));
        for (auto& p : lf) if (!newT.count(p.first)) joinByte(p.first, p.second, byteE(s.objs[p.first.first].p, p.first.second)); }
    if (!fine) { undo(lf); reset(); return false; }
    for (auto& p : phiV) g.regs[p.first] = mk(p.second);
    for (auto& p : merged) setByte(wr(s, p.first.first), p.first.second, p.second);
    ++nMerges; return true;
}

static void step(State& s) {
    Frame& f = s.st.back(); DInst& in = f.f->bb[f.bb].in[f.pc];
    ++s.steps; ++nSteps;
    auto A = [&](unsigned i) -> const Val& { return get(f, in.ops[i]); };
    switch (in.opc) {
        case Instruction::Br: {
            if (in.bb2 < 0) { gotoBB(s, in.bb1); return; }
            const Val& c = A(0);
            if (!c.sym()) { gotoBB(s, c.c ? in.bb1 : in.bb2); return; }
            E ce = c.e; bool side = evalB(s, ce); E mine = side ? ce : X.notE(ce), other = side ? X.notE(ce) : ce;
            if (!inPc(s, mine)) {
                std::vector<u128> m; int r = inPc(s, other) ? 0 : query(s, other, &m);
                if (r == -1) unsupported["solver unknown at branch"]++;
                if (r == 1 && tryMerge(s, in, ce)) return;
                if (r == 1) { auto n = cloneState(s); n->model = m; addPc(*n, other); gotoBB(*n, side ? in.bb2 : in.bb1); work.push_back(std::move(n)); addPc(s, mine); }
            }
            gotoBB(s, side ? in.bb1 : in.bb2); return; }
        case Instruction::Switch: {
            const Val v = A(0); u64 x = v.c;
            if (v.sym()) { // fork per distinct case under the model
                ++X.evalStamp; u64 cur = (u64)X.eval(v.e, s.model); bool isCase = false; for (auto& c : in.cases) if (c.first == cur) isCase = true;
                if (isCase) { splitReexec(s, X.eq(v.e, X.cst(cur, in.w2))); x = cur; }
                else { E d = X.cst(1, 1); for (auto& c : in.cases) d = X.andE(d, X.notE(X.eq(v.e, X.cst(c.first, in.w2)))); splitReexec(s, d); x = cur; }
            }
            int to = in.bb1; for (auto& c : in.cases) if (c.first == x) { to = c.second; break; }
            gotoBB(s, to); return; }
        case Instruction::Ret: {
            Val r; if (!in.ops.empty()) r = A(0);
            popFrame(s);
            if (s.st.empty()) pathDone(s);
            Frame& g = s.st.back(); DInst& c = g.f->bb[g.bb].in[g.pc]; finishCall(s, c, r); return; }
        case Instruction::Call: case Instruction::Invoke: call(s, in); return;
        case Instruction::Load: {
            Val r = in.w ? loadScalar(s, A(0), in.w, (unsigned)in.bytes) : loadT(s, A(0), in.ty);
            if (in.w > 64 && !r.e) r.e = X.cst(r.c, in.w);
            f.regs[in.dst] = std::move(r); ++f.pc; return; }
        case Instruction::Store: {
            if (in.w) storeScalar(s, A(1), in.w, (unsigned)in.bytes, A(0)); else storeT(s, A(1), in.ty, A(0)); ++f.pc; return; }
        case Instruction::GetElementPtr: {
            Val p = A(0); if (in.off) p = addOff(p, (u64)in.off);
            for (size_t i = 1; i < in.ops.size(); ++i) {
                const Val& ix = A((unsigned)i); u64 es = in.idx[2 * (i - 1)]; unsigned iw = (unsigned)in.idx[2 * (i - 1) + 1];
                if (!ix.sym()) { p = addOff(p, (u64)(int64_t)sextw(ix.c, iw) * es); }
                else { E x = iw < 64 ? X.sext(ix.e, 64) : ix.e; p = mk(X.bin(K_Add, toE(p, 64), X.bin(K_Mul, x, X.cst(es, 64)))); }
            }
            f.regs[in.dst] = p; ++f.pc; return; }
        case Instruction::Alloca: {
            u64 n = concretize(s, A(0)); Obj* o = newObj(s, n * in.bytes, (u64)in.off, O_Stack); f.allocas.push_back((uint32_t)s.objs.size() - 1);
            f.regs[in.dst] = Val(o->base); ++f.pc; return; }
        case Instruction::ICmp: {
            if (in.ty->isVectorTy()) { Type* et = cast<VectorType>(in.I->getOperand(0)->getType())->getElementType(); unsigned w = scalarW(et); f.regs[in.dst] = mapVec(A(0), A(1), [&](const Val& a, const Val& b) { return icmp(in.pred, w, a, b); }); }
            else f.regs[in.dst] = icmp(in.pred, in.w2, A(0), A(1));
            ++f.pc; return; }
        case Instruction::FCmp: f.regs[in.dst] = fcmp(s, in.pred, in.w2, A(0), A(1)); ++f.pc; return;
        case Instruction::Select: {
            if (A(0).agg) { Val r = mkAgg(A(0).agg->size()); Type* et = cast<VectorType>(in.ty)->getElementType(); for (size_t i = 0; i < r.agg->size(); ++i) (*r.agg)[i] = selectV(s, (*A(0).agg)[i], (*A(1).agg)[i], (*A(2).agg)[i], et); f.regs[in.dst] = r; }
            else f.regs[in.dst] = selectV(s, A(0), A(1), A(2), in.ty);
            ++f.pc; return; }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            if (in.w) { const Val& b = A(1); if (!b.sym()) { if (!b.c && in.w <= 64) fail(s, "undefined", "division by zero"); } else require(s, X.notE(X.eq(b.e, X.cst(0, in.w))), "undefined", "division by zero"); }
            [[fallthrough]];
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Kind k = ik(in.opc);
            if (in.w) f.regs[in.dst] = binop(s, k, in.w, A(0), A(1));
            else { unsigned w = scalarW(cast<VectorType>(in.ty)->getElementType()); f.regs[in.dst] = mapVec(A(0), A(1), [&](const Val& a, const Val& b) { return binop(s, k, w, a, b); }); }
            ++f.pc; return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            if (in.w == 80) { if (!A(0).e->isC() || !A(1).e->isC()) unsup(s, "symbolic x86_fp80"); long double x = ld80(A(0).e->v), y = ld80(A(1).e->v); f.regs[in.dst] = mk80(in.opc == Instruction::FAdd ? x + y : in.opc == Instruction::FSub ? x - y : in.opc == Instruction::FMul ? x * y : x / y); }
            else if (in.w) f.regs[in.dst] = mk(X.bin(fk(in.opc), toE(A(0), in.w), toE(A(1), in.w)));
            else { unsigned w = scalarW(cast<VectorType>(in.ty)->getElementType()); f.regs[in.dst] = mapVec(A(0), A(1), [&](const Val& a, const Val& b) { return mk(X.bin(fk(in.opc), toE(a, w), toE(b, w))); }); }
            ++f.pc; return; }
        case Instruction::FNeg: if (in.w == 80) f.regs[in.dst] = mk80(-ld80(A(0).e->v)); else f.regs[in.dst] = mk(X.fp1(K_FNeg, in.w, toE(A(0), in.w))); ++f.pc; return;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: {
            if (in.w && in.w2) f.regs[in.dst] = castV(s, in.opc, A(0), in.w2, in.w, false, false);
            else if (in.opc == Instruction::BitCast) {
                // via bit concatenation
                auto flat = [&](const Val& v, Type* t) -> E { if (unsigned w = scalarW(t)) return toE(v, w); auto* vt = cast<FixedVectorType>(t); unsigned ew = scalarW(vt->getElementType()); E r = toE((*v.agg)[0], ew); for (unsigned i = 1; i < vt->getNumElements(); ++i) r = X.concat(toE((*v.agg)[i], ew), r); return r; };
                E e = flat(A(0), in.I->getOperand(0)->getType());
                if (in.w) f.regs[in.dst] = mk(e); else { auto* vt = cast<FixedVectorType>(in.ty); unsigned ew = scalarW(vt->getElementType()); Val r = mkAgg(vt->getNumElements()); for (unsigned i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = mk(X.extract(e, i * ew, ew)); f.regs[in.dst] = r; }
            }
            else { Type* st = in.I->getOperand(0)->getType(); unsigned sw = scalarW(cast<VectorType>(st)->getElementType()), dw = scalarW(cast<VectorType>(in.ty)->getElementType()); f.regs[in.dst] = mapVec(A(0), Val(), [&](const Val& a, const Val&) { return castV(s, in.opc, a, sw, dw, false, false); }); }
            ++f.pc; return; }
        case Instruction::Freeze: f.regs[in.dst] = A(0); ++f.pc; return;
        case Instruction::ExtractValue: { Val v = A(0); for (u64 i : in.idx) { Val t = (*v.agg)[i]; v = t; } f.regs[in.dst] = v; ++f.pc; return; }
        case Instruction::InsertValue: {
            Val base = A(0), nv = A(1);
            std::function<Val(const Val&, size_t)> ins = [&](const Val& b, size_t d) -> Val { if (d == in.idx.size()) return nv; Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[in.idx[d]] = ins((*b.agg)[in.idx[d]], d + 1); return r; };
            f.regs[in.dst] = ins(base, 0); ++f.pc; return; }
        case Instruction::ExtractElement: { u64 i = concretize(s, A(1)); Val v = (*A(0).agg)[i]; f.regs[in.dst] = v; ++f.pc; return; }
        case Instruction::InsertElement: { u64 i = concretize(s, A(2)); Val r; r.agg = std::make_shared<std::vector<Val>>(*A(0).agg); (*r.agg)[i] = A(1); f.regs[in.dst] = r; ++f.pc; return; }
        case Instruction::ShuffleVector: { Val r = mkAgg(in.cases.size()); for (size_t i = 0; i < in.cases.size(); ++i) { int m = in.cases[i].second; if (m < 0) continue; (*r.agg)[i] = (u64)m < in.bytes ? (*A(0).agg)[m] : (*A(1).agg)[m - in.bytes]; } f.regs[in.dst] = r; ++f.pc; return; }
        case Instruction::LandingPad: {
            auto* lp = cast<LandingPadInst>(in.I); u64 sel = 0; bool match = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (!lp->isCatch(i)) { match = true; continue; } // filter: treat as match with selector -1
                u64 ti = constVal(s, lp->getClause(i)).c;
                if (ti == 0 || tiDerives(s.inflight.ti, ti)) { sel = ti ? selId(ti) : 0xffff; match = true; break; }
            }
            if (!match) { unwind(s); return; }
            Val r = mkAgg(2); (*r.agg)[0] = Val(s.inflight.ptr); (*r.agg)[1] = Val(sel); f.regs[in.dst] = r; ++f.pc; return; }
        case Instruction::Resume: { unwind(s); return; }
        case Instruction::Unreachable: fail(s, "undefined", "unreachable code reached");
        case Instruction::Fence: ++f.pc; return;
        case Instruction::AtomicRMW: {
            auto* a = cast<AtomicRMWInst>(in.I); unsigned w = in.w; Val old = loadScalar(s, A(0), w, w / 8); Val nv;
            switch (a->getOperation()) { case AtomicRMWInst::Xchg: nv = A(1); break; case AtomicRMWInst::Add: nv = binop(s, K_Add, w, old, A(1)); break; case AtomicRMWInst::Sub: nv = binop(s, K_Sub, w, old, A(1)); break; case AtomicRMWInst::And: nv = binop(s, K_And, w, old, A(1)); break; case AtomicRMWInst::Or: nv = binop(s, K_Or, w, old, A(1)); break; default: unsup(s, "atomicrmw"); }
            storeScalar(s, A(0), w, w / 8, nv); f.regs[in.dst] = old; ++f.pc; return; }
        case Instruction::AtomicCmpXchg: {
            Type* t = in.I->getOperand(1)->getType(); unsigned w = scalarW(t); Val old = loadScalar(s, A(0), w, (w + 7) / 8); Val eqv = icmp(CmpInst::ICMP_EQ, w, old, A(1)); storeScalar(s, A(0), w, (w + 7) / 8, selectV(s, eqv, A(2), old, t)); Val r = mkAgg(2); (*r.agg)[0] = old; (*r.agg)[1] = eqv; f.regs[in.dst] = r; ++f.pc; return; }
        case 9998: { // inline asm: compiler barriers only
            auto* ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand()); if (!ia->getAsmString().empty() && ia->getAsmString().find("pause") == std::string::npos) unsup(s, "inline asm"); finishCall(s, in, Val()); return; }
        default: break;
    }
    unsup(s, std::string("instruction ") + in.I->getOpcodeName());
}

// ------------------------------------------------------------------ main
static void initConst(State& s, Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) initConst(s, o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) initConst(s, o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
    Val v = constVal(s, c); u64 n = DL->getTypeStoreSize(t);
    if (v.agg) { unsigned eb = (unsigned)DL->getTypeSizeInBits(cast<VectorType>(t)->getElementType()) / 8; for (size_t i = 0; i < v.agg->size(); ++i) writeAt(o, off + i * eb, eb, eb * 8, (*v.agg)[i]); return; }
    if (v.e) { u128 x = v.e->v; memcpy(o->data + off, &x, std::min<u64>(n, 16)); return; }
    memcpy(o->data + off, &v.c, std::min<u64>(n, 8));
}
static std::string js(const std::string& x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
    std::string out; std::vector<std::string> files; std::string solver = "simple"; bool covLines = false; std::string entry = "harness";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("--out=", 0) == 0) out = val("--out="); else if (a.rfind("--param=", 0) == 0) { std::string kv = val("--param="); size_t e = kv.find('='); params[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, 0, 0); }
        else if (a.rfind("--timeout=", 0) == 0) timeLimit = atof(val("--timeout=").c_str()); else if (a.rfind("--max-steps=", 0) == 0) maxSteps = strtoull(val("--max-steps=").c_str(), 0, 0);
        else if (a.rfind("--solver=", 0) == 0) solver = val("--solver="); else if (a.rfind("--query-ms=", 0) == 0) gQueryMs = (unsigned)atoi(val("--query-ms=").c_str()); else if (a == "--assume") gAssume = true; else if (a == "--no-merge") gMerge = false; else if (a.rfind("--reset=", 0) == 0) gResetAt = strtoull(val("--reset=").c_str(), 0, 0); else if (a == "--stop") stopOnErr = true; else if (a == "--lines") covLines = true; else if (a.rfind("--entry=", 0) == 0) entry = val("--entry="); else files.push_back(a);
    }
    t0 = Clock::now();
    Z3_config cfg = Z3_mk_config(); X.ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(X.ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(4); });
    Z = solver == "bv" ? Z3_mk_solver_for_logic(X.ctx, Z3_mk_string_symbol(X.ctx, "QF_BV")) : solver == "fp" ? Z3_mk_solver_for_logic(X.ctx, Z3_mk_string_symbol(X.ctx, "QF_FPBV")) : solver == "simple" ? Z3_mk_simple_solver(X.ctx) : Z3_mk_solver(X.ctx);
    Z3_solver_inc_ref(X.ctx, Z);
    { Z3_params p = Z3_mk_params(X.ctx); Z3_params_inc_ref(X.ctx, p); Z3_params_set_uint(X.ctx, p, Z3_mk_string_symbol(X.ctx, "timeout"), gQueryMs); Z3_solver_set_params(X.ctx, Z, p); Z3_params_dec_ref(X.ctx, p); }
    initBuiltins();
    SMDiagnostic diag;
    for (auto& fn : files) { auto m = parseIRFile(fn, diag, LC); if (!m) { diag.print("symex", llvm::errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3; }
    DL = &M->getDataLayout();
    std::unique_ptr<State> s0(new State); State& s = *s0; initState = &s;
    for (auto& F : *M) { if (F.isIntrinsic()) continue; Obj* o = newObj(s, 1, 16, O_Func); o->fn = &F; o->ro = true; gaddr[&F] = o->base; addrName[o->base] = F.getName().str(); }
    std::vector<std::pair<const GlobalVariable*, u64>> gv;
    for (auto& G : M->globals()) {
        std::string n = G.getName().str(); if (n.rfind("llvm.", 0) == 0) { gaddr[&G] = 0; continue; }
        if (!G.hasInitializer()) { u64 a = extGlobal(s, n, std::max<u64>(256, G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 256)); gaddr[&G] = a; continue; }
        u64 sz = DL->getTypeAllocSize(G.getValueType()); Obj* o = newObj(s, sz, std::max<u64>(1, (u64)DL->getPreferredAlign(&G).value()), O_Global); memset(o->data, 0, sz); gaddr[&G] = o->base; addrName[o->base] = n; gv.push_back({&G, o->base});
    }
    for (auto& g : gv) { Obj* o = s.objs[objId(s, g.second)].p; initConst(s, o, 0, g.first->getInitializer()); o->ro = g.first->isConstant(); }
    // class hierarchy
    for (auto& g : gv) { std::string n = g.first->getName().str(); if (n.rfind("_ZTI", 0) == 0) { if (auto* cs = dyn_cast<ConstantStruct>(g.first->getInitializer())) if (cs->getNumOperands() == 3 && cs->getOperand(2)->getType()->isPointerTy()) tiBaseAddr[g.second] = constVal(s, cs->getOperand(2)).c; } }
    // ensure external bases exist in name table
    for (auto& p : tiBase) { if (extAddr.count(p.first)) for (std::string b = p.second;;) { extGlobal(s, b); auto it = tiBase.find(b); if (it == tiBase.end()) break; b = it->second; } }
    // for throw-by-name builtins
    for (auto& p : throwNames) { std::string b = p.second; for (;;) { extGlobal(s, b); auto it = tiBase.find(b); if (it == tiBase.end()) break; b = it->second; } }
    Function* H = M->getFunction(entry); if (!H) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // constructors run first: build a call list
    std::vector<Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
    std::vector<Function*> todo(ctors); todo.push_back(H);
    work.push_back(std::move(s0));
    size_t ci = 0;
    // run constructors concretely
    for (; ci + 1 < todo.size(); ++ci) {
        State& st = *work.back(); enter(st, todo[ci], {});
        try { while (!st.st.empty()) step(st); } catch (PathEnd&) { --nPaths; if (!st.st.empty()) { fprintf(stderr, "constructor failed\n"); for (auto& e : gErrs) fprintf(stderr, "%s\n", e.first.c_str()); for (auto& e : unsupported) fprintf(stderr, "%s\n", e.first.c_str()); return 3; } }
        samples.clear();
    }
    { State& st = *work.back(); std::vector<Val> a; enter(st, H, std::move(a)); st.steps = 0; nSteps = 0; }
    u64 tick = 0;
    while (!work.empty() && !timedOut) {
        std::unique_ptr<State> cur = std::move(work.back()); work.pop_back();
        try {
            for (;;) {
                step(*cur);
                if ((++tick & 0x3ff) == 0) { if (secs(t0) > timeLimit) { timedOut = true; break; } }
                u64 lim = cur->stepBase ? cur->stepBase : maxSteps;
                if (cur->steps > lim) { report(*cur, "termination", "step limit exceeded (no termination within the bound)", cur->model); ++nCut; break; }
            }
        } catch (PathEnd&) {}
    }
    bool complete = !timedOut && work.empty();
    // coverage
    std::set<std::string> fns; std::map<std::string, std::set<unsigned>> lines; u64 nIR = 0, nF = 0;
    for (auto& p : DF) { if (!p.second->seen) continue; ++nF; for (auto& b : p.second->bb) if (b.seen) for (auto& in : b.in) { ++nIR; for (const DILocation* L = in.I->getDebugLoc(); L; L = L->getInlinedAt()) { std::string f = L->getFilename().str(); if (f.find("/include/") == std::string::npos || f.find("c++") != std::string::npos || f.find("/llvm-") != std::string::npos) continue; if (auto* sp = L->getScope()->getSubprogram()) fns.insert(f.substr(f.find("/include/") + 9) + ":" + shortName(sp->getName().str())); lines[f.substr(f.find("/include/") + 9)].insert(L->getLine()); } } }
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"complete\": %s, \"paths\": %llu, \"forks\": %llu, \"merges\": %llu, \"cut\": %llu, \"pending\": %zu, \"assume_false\": %llu, \"steps\": %llu, \"max_path_steps\": %llu, \"queries\": %llu, \"rewritten\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"asserts\": %llu, \"asserts_symbolic\": %llu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f, \"exprs\": %zu, \"allocs\": %llu, \"ir_functions\": %llu, \"ir_instructions\": %llu,\n",
        complete ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nCut, work.size(), (unsigned long long)nAssume0, (unsigned long long)nSteps, (unsigned long long)maxPathSteps, (unsigned long long)nQ, (unsigned long long)nSimpV, (unsigned long long)nQsat, (unsigned long long)nQunsat, (unsigned long long)nQunk, (unsigned long long)nAsserts, (unsigned long long)nAssertsSolver, tSolver, tMaxQ, secs(t0), X.tab.size(), (unsigned long long)nAllocs, (unsigned long long)nF, (unsigned long long)nIR);
    fprintf(o, "\"unsupported\": {"); { bool c = false; for (auto& u : unsupported) { fprintf(o, "%s%s: %llu", c ? ", " : "", js(u.first).c_str(), (unsigned long long)u.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"fork_sites\": ["); { std::vector<std::pair<u64, std::string>> v; for (auto& p : forkAt) v.push_back({p.second, locOf(p.first)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 8; ++i) fprintf(o, "%s[%s, %llu]", i ? ", " : "", js(v[i].second).c_str(), (unsigned long long)v[i].first); } fprintf(o, "],\n");
    fprintf(o, "\"reach\": {"); { bool c = false; for (auto& u : reach) { fprintf(o, "%s%s: %llu", c ? ", " : "", js(u.first).c_str(), (unsigned long long)u.second); c = true; } } fprintf(o, "},\n");
    fprintf(o, "\"functions\": ["); { bool c = false; for (auto& u : fns) { fprintf(o, "%s%s", c ? ", " : "", js(u).c_str()); c = true; } } fprintf(o, "],\n");
    if (covLines) { fprintf(o, "\"lines\": {"); bool c = false; for (auto& l : lines) { fprintf(o, "%s%s: [", c ? ", " : "", js(l.first).c_str()); c = true; bool d = false; for (unsigned n : l.second) { fprintf(o, "%s%u", d ? "," : "", n); d = true; } fprintf(o, "]"); } fprintf(o, "},\n"); }
    fprintf(o, "\"samples\": ["); { bool c = false; for (auto& u : samples) { fprintf(o, "%s{", c ? ", " : ""); c = true; bool d = false; for (auto& kv : u.second) { fprintf(o, "%s%s: %s", d ? ", " : "", js(kv.first).c_str(), js(kv.second).c_str()); d = true; } fprintf(o, "}"); } } fprintf(o, "],\n");
    fprintf(o, "\"errors\": ["); { bool c = false; for (auto& ep : gErrs) { Err& e = ep.second; fprintf(o, "%s{\"kind\": %s, \"msg\": %s, \"loc\": %s, \"count\": %llu, \"stack\": [", c ? ", " : "", js(e.kind).c_str(), js(e.msg).c_str(), js(e.loc).c_str(), (unsigned long long)e.count); c = true; bool d = false; for (auto& l : e.stack) { fprintf(o, "%s%s", d ? ", " : "", js(l).c_str()); d = true; } fprintf(o, "], \"vals\": ["); d = false; for (auto& kv : e.vals) { fprintf(o, "%s[%s, %s]", d ? ", " : "", js(kv.first).c_str(), js(kv.second).c_str()); d = true; } fprintf(o, "], \"notes\": ["); d = false; for (auto& kv : e.notes) { fprintf(o, "%s[%s, %s]", d ? ", " : "", js(kv.first).c_str(), js(kv.second).c_str()); d = true; } fprintf(o, "]}\n"); } } fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    _Exit(0);
}
