// symx: symbolic executor for LLVM bitcode (C programs), deciding branches
// and assertions with Z3.  See ../DESIGN.md.
//
//   symx [options] --prog dasm.bc [--prog ftohex.bc] --rt runtime.bc
//        --out result.json [--param k=v]... [--time S] [--steps N]
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <pthread.h>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include "expr.h"

using namespace llvm;
using std::string;
using std::vector;

static ExprPool P;
static double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static double T0;

// ------------------------------------------------------------------ options
static double optTime = 600, optAfter = 1e9, firstViol = 0;
static string optStop;
static uint64_t optSteps = 60000000ull;     // instructions per path
static uint64_t optMaxPaths = 10000000ull;
static int optSamples = 8;
static unsigned optSolverMs = 120000;
static uint64_t optSeed = 1;
static bool optDebug = false;
static std::map<string, string> params;

// ------------------------------------------------------------------ values
struct Val { uint64_t c; E e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
static inline Val mkV(E e) { return e->k == K_CONST ? Val{e->val, nullptr} : Val{0, e}; }
static inline E toE(const Val &v, int w) { return v.e ? v.e : P.C(w, v.c); }

// ------------------------------------------------------------------ memory
struct Obj {
    int refs = 0;
    uint64_t base = 0; uint32_t size = 0;
    bool ro = false;
    const char *name = "";
    uint8_t *c = nullptr;
    E *s = nullptr;
    Obj(uint64_t b, uint32_t n, const char *nm) : base(b), size(n), name(nm) { c = (uint8_t *)malloc(n ? n : 1); }
    Obj(const Obj &o) : base(o.base), size(o.size), ro(o.ro), name(o.name) {
        c = (uint8_t *)malloc(size ? size : 1); memcpy(c, o.c, size);
        if (o.s) { s = (E *)malloc(sizeof(E) * size); memcpy(s, o.s, sizeof(E) * size); }
    }
    ~Obj() { free(c); free(s); }
};
struct ObjP {
    Obj *p;
    ObjP(Obj *o = nullptr) : p(o) { if (p) p->refs++; }
    ObjP(const ObjP &o) : p(o.p) { if (p) p->refs++; }
    ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->refs == 0) delete p; }
};
static const uint64_t FUNC_BASE = 0x10000000ull, GLOB_BASE = 0x20000000ull, HEAP_BASE = 0x40000000ull, STACK_BASE = 0x70000000ull;

struct Region {
    vector<ObjP> v;      // sorted by base
    int find(uint64_t a) const {    // object with base <= a, or -1
        int lo = 0, hi = (int)v.size() - 1, r = -1;
        while (lo <= hi) { int m = (lo + hi) / 2; if (v[m].p->base <= a) { r = m; lo = m + 1; } else hi = m - 1; }
        return r;
    }
};

// ------------------------------------------------------------------ program
enum Op : uint8_t {
    O_BIN, O_ICMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
    O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE, O_UNSUP
};
struct Fn;
enum Builtin : int {
    B_NONE = 0, B_NOP, B_SYM, B_ASSUME, B_CHECK, B_WITNESS, B_CHOOSE, B_ISSYM, B_CONCR, B_PARAM, B_CALLMAIN, B_EXIT, B_RESET,
    B_MALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_STRLEN, B_VASTART, B_VACOPY, B_ABORT, B_DUMP, B_FEASIBLE,
    B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_ABS, B_FSHL, B_FSHR, B_BSWAP, B_OVF, B_CTPOP, B_USUBSAT, B_UADDSAT, B_EXPECT, B_OBJSIZE, B_ISCONST, B_CTLZ, B_CTTZ, B_BITREV,
    B_MSIZE, B_READABLE, B_STRCPY, B_UNSUP
};
struct CallInfo {
    Fn *fn = nullptr;           // direct target with body
    int builtin = B_NONE;
    int sub = 0;                // builtin detail
    int callee = 0;             // operand for indirect
    bool indirect = false;
    vector<int> args;
    vector<uint8_t> widths;
    string name;
};
struct Edge { int target; vector<std::pair<int, int>> copies; };
struct SwitchInfo { vector<std::pair<uint64_t, int>> cases; /* value, edge */ int def; };
struct GepInfo { vector<std::pair<int, int64_t>> idx; vector<uint8_t> widths; };
struct Inst {
    Op op; uint8_t sub = 0; uint8_t w = 0, w2 = 0;
    int dst = -1, a = 0, b = 0, c = 0;
    int64_t imm = 0;
    int ext = -1;
};
struct Fn {
    string name;
    const Function *f = nullptr;
    int mod = 0;
    int nregs = 0, nparams = 0;
    bool vararg = false;
    vector<Inst> code;
    vector<Val> consts;
    vector<Edge> edges;
    vector<SwitchInfo> switches;
    vector<GepInfo> geps;
    vector<CallInfo> calls;
    vector<string> unsup;
    vector<int> blockStart;
    vector<uint8_t> blockHit;
    vector<int> instBlock;
    bool translated = false;
    uint64_t addr = 0;
};

static vector<std::unique_ptr<Module>> mods;
static vector<Fn *> fns;
static std::map<uint64_t, Fn *> fnByAddr;
static std::map<const Function *, Fn *> fnByLLVM;
static std::map<string, Fn *> fnByName;          // externally visible definitions
static std::map<string, const GlobalVariable *> gvByName;
static std::map<const GlobalVariable *, uint64_t> gvAddr;
static vector<std::pair<ObjP, int>> globalInit;   // initial objects and module index
static const DataLayout *DL;

static const GlobalVariable *resolveGV(const GlobalVariable *g) {
    if (!g->isDeclaration()) return g;
    auto it = gvByName.find(g->getName().str());
    return it == gvByName.end() ? nullptr : it->second;
}
static Fn *resolveFn(const Function *f) {
    auto it = fnByLLVM.find(f);
    if (it != fnByLLVM.end()) return it->second;
    auto jt = fnByName.find(f->getName().str());
    return jt == fnByName.end() ? nullptr : jt->second;
}
static std::map<string, Fn *> extFns;             // declared-only functions whose address is taken
static uint64_t fnAddress(const Function *f) {
    Fn *x = resolveFn(f);
    if (!x) {
        string n = f->getName().str();
        auto it = extFns.find(n);
        if (it != extFns.end()) return it->second->addr;
        x = new Fn(); x->name = n; x->addr = FUNC_BASE + 16 * (1000000 + extFns.size());
        extFns[n] = x; fnByAddr[x->addr] = x;
    }
    return x->addr;
}
static uint64_t evalConst(const Constant *c);
static int64_t gepConstOffset(const GEPOperator *g, bool &ok) {
    APInt off(64, 0);
    ok = g->accumulateConstantOffset(*DL, off);
    return off.getSExtValue();
}
static uint64_t evalConst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *gv = dyn_cast<GlobalVariable>(c)) {
        const GlobalVariable *r = resolveGV(gv);
        if (!r) { fprintf(stderr, "symx: unresolved global %s\n", gv->getName().str().c_str()); exit(3); }
        return gvAddr[r];
    }
    if (auto *f = dyn_cast<Function>(c)) return fnAddress(f);
    if (auto *al = dyn_cast<GlobalAlias>(c)) return evalConst(al->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return evalConst(ce->getOperand(0)) & maskw(DL->getTypeSizeInBits(ce->getType()));
        case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(DL->getTypeSizeInBits(ce->getType()));
        case Instruction::GetElementPtr: { bool ok; int64_t o = gepConstOffset(cast<GEPOperator>(ce), ok);
            if (!ok) break; return evalConst(ce->getOperand(0)) + o; }
        case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
        case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
        case Instruction::Xor: return evalConst(ce->getOperand(0)) ^ evalConst(ce->getOperand(1));
        case Instruction::ICmp: {
            uint64_t x = evalConst(ce->getOperand(0)), y = evalConst(ce->getOperand(1));
            if (ce->getPredicate() == CmpInst::ICMP_EQ) return x == y;
            if (ce->getPredicate() == CmpInst::ICMP_NE) return x != y;
            break; }
        default: break;
        }
    }
    string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", os.str().c_str());
    exit(3);
}
static void writeInit(Obj *o, uint64_t off, const Constant *c) {
    uint64_t sz = DL->getTypeAllocSize(c->getType());
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) { memset(o->c + off, 0, sz); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cd->getElementByteSize();
        for (unsigned i = 0; i < cd->getNumElements(); i++) { uint64_t v = cd->getElementAsInteger(i); memcpy(o->c + off + i * es, &v, es); }
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(cs->getType());
        memset(o->c + off, 0, sz);
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    uint64_t v = evalConst(c);
    memcpy(o->c + off, &v, std::min<uint64_t>(sz, 8));
}

// ---- translation of one function
struct Translator {
    Fn &F;
    std::map<const llvm::Value *, int> regs;
    std::map<uint64_t, int> constIdx;
    std::map<const BasicBlock *, int> blockId;
    vector<std::pair<int, const BasicBlock *>> fix;
    Translator(Fn &f) : F(f) {}
    int constOp(uint64_t v) {
        auto it = constIdx.find(v);
        if (it != constIdx.end()) return it->second;
        F.consts.push_back(CV(v));
        return constIdx[v] = ~(int)(F.consts.size() - 1);
    }
    static int width(Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        return 0;
    }
    int operand(const llvm::Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) { int w = width(v->getType()); return constOp(evalConst(c) & maskw(w ? w : 64)); }
        auto it = regs.find(v);
        if (it != regs.end()) return it->second;
        int n = nfields(v->getType());
        int r = F.nregs; F.nregs += n;
        return regs[v] = r;
    }
    // a first-class aggregate (only flat structures of scalars) lives in consecutive registers
    static int nfields(Type *t) {
        auto *st = dyn_cast<StructType>(t);
        return st ? std::max(1u, st->getNumElements()) : 1;
    }
    static bool flat(Type *t) {
        auto *st = dyn_cast<StructType>(t);
        if (!st) return false;
        for (Type *e : st->elements()) { int w = width(e); if (!w || w > 64) return false; }
        return st->getNumElements() > 0;
    }
    int field(const llvm::Value *v, int k) {
        if (auto *c = dyn_cast<Constant>(v)) return operand(c->getAggregateElement((unsigned)k));
        return operand(v) + k;
    }
    void mov(int dst, int src, int w) { Inst M; M.op = O_MOV; M.dst = dst; M.a = src; M.w = w; F.code.push_back(M); }
    int edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = blockId[to];
        for (const PHINode &ph : to->phis()) {
            const llvm::Value *in = ph.getIncomingValueForBlock(from);
            if (flat(ph.getType())) {
                for (int k = 0; k < nfields(ph.getType()); k++) e.copies.push_back({operand(&ph) + k, field(in, k)});
                continue;
            }
            e.copies.push_back({operand(&ph), operand(in)});
        }
        F.edges.push_back(e);
        return F.edges.size() - 1;
    }
    void unsup(Inst &I, const string &m) { I.op = O_UNSUP; F.unsup.push_back(m); I.ext = F.unsup.size() - 1; }
    static string str(const llvm::Value &v) { string s; raw_string_ostream os(s); v.print(os); return os.str(); }
    void run() {
        const Function *f = F.f;
        for (const Argument &a : f->args()) operand(&a);
        F.nparams = f->arg_size(); F.vararg = f->isVarArg();
        int bi = 0;
        for (const BasicBlock &b : *f) blockId[&b] = bi++;
        F.blockStart.resize(bi); F.blockHit.assign(bi, 0);
        for (const BasicBlock &b : *f) {
            F.blockStart[blockId[&b]] = F.code.size();
            for (const Instruction &i : b) {
                if (isa<PHINode>(i)) { operand(&i); continue; }
                size_t before = F.code.size();
                one(i, b);
                while (F.instBlock.size() < F.code.size()) F.instBlock.push_back(blockId[&b]);
                (void)before;
            }
        }
        F.translated = true;
    }
    int builtinOf(const string &n, CallInfo &ci, const CallBase &cb) {
        static const std::map<string, int> tab = {
            {"vp_sym", B_SYM}, {"vp_assume", B_ASSUME}, {"vp_check", B_CHECK}, {"vp_witness", B_WITNESS}, {"vp_choose", B_CHOOSE},
            {"vp_is_sym", B_ISSYM}, {"vp_concretize", B_CONCR}, {"vp_param", B_PARAM}, {"vp_call_main", B_CALLMAIN}, {"vp_exit", B_EXIT},
            {"vp_reset", B_RESET}, {"malloc", B_MALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
            {"strlen", B_STRLEN}, {"abort", B_ABORT}, {"vp_dump", B_DUMP}, {"vp_feasible", B_FEASIBLE}, {"strcpy", B_STRCPY}, {"vp_abort", B_ABORT}, {"vp_msize", B_MSIZE}, {"vp_readable", B_READABLE},
        };
        auto it = tab.find(n);
        if (it != tab.end()) return it->second;
        auto starts = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
        if (starts("llvm.lifetime") || starts("llvm.dbg") || starts("llvm.assume") || starts("llvm.va_end") || starts("llvm.experimental.noalias") || starts("llvm.donothing") || starts("llvm.prefetch") || starts("llvm.stackrestore")) return B_NOP;
        if (starts("llvm.stacksave")) return B_ISCONST;
        if (starts("llvm.memcpy")) return B_MEMCPY;
        if (starts("llvm.memmove")) return B_MEMMOVE;
        if (starts("llvm.memset")) return B_MEMSET;
        if (starts("llvm.va_start")) return B_VASTART;
        if (starts("llvm.va_copy")) return B_VACOPY;
        if (starts("llvm.smax")) return B_SMAX;
        if (starts("llvm.smin")) return B_SMIN;
        if (starts("llvm.umax")) return B_UMAX;
        if (starts("llvm.umin")) return B_UMIN;
        if (starts("llvm.abs")) return B_ABS;
        if (starts("llvm.fshl")) return B_FSHL;
        if (starts("llvm.fshr")) return B_FSHR;
        if (starts("llvm.bswap")) return B_BSWAP;
        if (starts("llvm.ctpop")) return B_CTPOP;
        if (starts("llvm.bitreverse")) return B_BITREV;
        if (starts("llvm.ctlz")) return B_CTLZ;
        if (starts("llvm.cttz")) return B_CTTZ;
        if (starts("llvm.usub.sat")) return B_USUBSAT;
        if (starts("llvm.uadd.sat")) return B_UADDSAT;
        if (starts("llvm.expect")) return B_EXPECT;
        if (starts("llvm.objectsize")) return B_OBJSIZE;
        if (starts("llvm.is.constant")) return B_ISCONST;
        if (starts("llvm.trap") || starts("llvm.ubsantrap")) return B_ABORT;
        static const char *ov[] = {"llvm.uadd.with", "llvm.sadd.with", "llvm.usub.with", "llvm.ssub.with", "llvm.umul.with", "llvm.smul.with"};
        for (int i = 0; i < 6; i++) if (starts(ov[i])) { ci.sub = i; return B_OVF; }
        return B_NONE;
    }
    // instructions on flat structures, expanded field by field
    bool aggregate(const Instruction &i, Inst I) {
        Type *t = i.getType();
        if (isa<StoreInst>(i) || isa<ReturnInst>(i)) t = i.getOperand(0)->getType();
        auto *st = cast<StructType>(t);
        int n = nfields(t);
        auto fw = [&](int k) { return width(st->getElementType(k)); };
        switch (i.getOpcode()) {
        case Instruction::InsertValue: {
            auto &iv = cast<InsertValueInst>(i);
            for (int k = 0; k < n; k++) mov(I.dst + k, k == (int)iv.getIndices()[0] ? operand(iv.getInsertedValueOperand()) : field(iv.getAggregateOperand(), k), fw(k));
            return true; }
        case Instruction::Freeze:
            for (int k = 0; k < n; k++) mov(I.dst + k, field(i.getOperand(0), k), fw(k));
            return true;
        case Instruction::Select:
            for (int k = 0; k < n; k++) {
                Inst S; S.op = O_SELECT; S.dst = I.dst + k; S.w = fw(k);
                S.a = operand(i.getOperand(0)); S.b = field(i.getOperand(1), k); S.c = field(i.getOperand(2), k);
                F.code.push_back(S);
            }
            return true;
        case Instruction::Load: case Instruction::Store: {
            bool ld = isa<LoadInst>(i);
            int p = operand(i.getOperand(ld ? 0 : 1));
            for (int k = 0; k < n; k++) {
                Inst G; G.op = O_GEP; G.dst = F.nregs++; G.w = 64; G.a = p; G.imm = DL->getStructLayout(st)->getElementOffset(k);
                F.code.push_back(G);
                Inst M; M.w = fw(k);
                if (ld) { M.op = O_LOAD; M.dst = I.dst + k; M.a = G.dst; }
                else { M.op = O_STORE; M.a = field(i.getOperand(0), k); M.b = G.dst; }
                F.code.push_back(M);
            }
            return true; }
        case Instruction::Ret: {
            int base = F.nregs; F.nregs += n;
            for (int k = 0; k < n; k++) mov(base + k, field(i.getOperand(0), k), fw(k));
            I.op = O_RET; I.a = base; I.imm = n;
            F.code.push_back(I);
            return true; }
        default: return false;
        }
    }
    void one(const Instruction &i, const BasicBlock &b) {
        Inst I;
        I.op = O_UNSUP;
        Type *t = i.getType();
        int w = width(t);
        if (!t->isVoidTy()) {
            I.dst = operand(&i);
            I.w = w;
            if (w == 0 && !t->isStructTy()) { unsup(I, str(i)); F.code.push_back(I); return; }
            if (w > 64) { unsup(I, str(i)); F.code.push_back(I); return; }
        }
        if (t->isStructTy() && !flat(t)) { unsup(I, str(i)); F.code.push_back(I); return; }
        if (flat(t) || (isa<StoreInst>(i) && flat(i.getOperand(0)->getType())) || (isa<ReturnInst>(i) && i.getNumOperands() && flat(i.getOperand(0)->getType())))
            if (aggregate(i, I)) return;
        switch (i.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            static const std::map<unsigned, Kind> km = {
                {Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV},
                {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR},
                {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
            I.op = O_BIN; I.sub = km.at(i.getOpcode()); I.a = operand(i.getOperand(0)); I.b = operand(i.getOperand(1)); break; }
        case Instruction::ICmp:
            I.op = O_ICMP; I.sub = cast<ICmpInst>(i).getPredicate(); I.w2 = width(i.getOperand(0)->getType());
            I.a = operand(i.getOperand(0)); I.b = operand(i.getOperand(1));
            if (!I.w2) unsup(I, str(i));
            break;
        case Instruction::Select:
            I.op = O_SELECT; I.a = operand(i.getOperand(0)); I.b = operand(i.getOperand(1)); I.c = operand(i.getOperand(2)); break;
        case Instruction::ZExt: I.op = O_ZEXT; I.a = operand(i.getOperand(0)); I.w2 = width(i.getOperand(0)->getType()); break;
        case Instruction::SExt: I.op = O_SEXT; I.a = operand(i.getOperand(0)); I.w2 = width(i.getOperand(0)->getType()); break;
        case Instruction::Trunc: I.op = O_TRUNC; I.a = operand(i.getOperand(0)); I.w2 = width(i.getOperand(0)->getType()); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            int w2 = width(i.getOperand(0)->getType());
            I.op = w2 > w ? O_TRUNC : w2 < w ? O_ZEXT : O_MOV; I.w2 = w2; I.a = operand(i.getOperand(0)); break; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
            I.op = O_MOV; I.a = operand(i.getOperand(0)); break;
        case Instruction::Load: I.op = O_LOAD; I.a = operand(i.getOperand(0)); break;
        case Instruction::Store:
            I.op = O_STORE; I.a = operand(i.getOperand(0)); I.b = operand(i.getOperand(1)); I.w = width(i.getOperand(0)->getType());
            if (!I.w || I.w > 64) unsup(I, str(i));
            break;
        case Instruction::Alloca: {
            auto &al = cast<AllocaInst>(i);
            I.op = O_ALLOCA; I.imm = DL->getTypeAllocSize(al.getAllocatedType()); I.a = operand(al.getArraySize()); break; }
        case Instruction::GetElementPtr: {
            I.op = O_GEP; I.a = operand(i.getOperand(0));
            GepInfo gi; int64_t off = 0;
            for (auto it = gep_type_begin(i), e = gep_type_end(i); it != e; ++it) {
                llvm::Value *ix = it.getOperand();
                if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                int64_t es = DL->getTypeAllocSize(it.getIndexedType());
                if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * es; continue; }
                gi.idx.push_back({operand(ix), es}); gi.widths.push_back(width(ix->getType()));
            }
            I.imm = off;
            if (!gi.idx.empty()) { F.geps.push_back(gi); I.ext = F.geps.size() - 1; }
            break; }
        case Instruction::Br: {
            auto &br = cast<BranchInst>(i);
            if (br.isUnconditional()) { I.op = O_BR; I.b = edge(&b, br.getSuccessor(0)); }
            else { I.op = O_CBR; I.a = operand(br.getCondition()); I.b = edge(&b, br.getSuccessor(0)); I.c = edge(&b, br.getSuccessor(1)); }
            break; }
        case Instruction::Switch: {
            auto &sw = cast<SwitchInst>(i);
            I.op = O_SWITCH; I.a = operand(sw.getCondition()); I.w = width(sw.getCondition()->getType());
            SwitchInfo si; si.def = edge(&b, sw.getDefaultDest());
            std::map<const BasicBlock *, int> em;
            for (auto &cs : sw.cases()) {
                const BasicBlock *d = cs.getCaseSuccessor();
                if (!em.count(d)) em[d] = edge(&b, d);
                si.cases.push_back({cs.getCaseValue()->getZExtValue(), em[d]});
            }
            F.switches.push_back(si); I.ext = F.switches.size() - 1; break; }
        case Instruction::Ret:
            I.op = O_RET; I.a = i.getNumOperands() ? operand(i.getOperand(0)) : constOp(0); break;
        case Instruction::Unreachable: I.op = O_UNREACHABLE; break;
        case Instruction::ExtractValue: {
            auto &ev = cast<ExtractValueInst>(i);
            I.op = O_MOV; I.a = field(ev.getAggregateOperand(), ev.getIndices()[0]); break; }
        case Instruction::Call: {
            auto &cb = cast<CallBase>(i);
            I.op = O_CALL;
            CallInfo ci;
            const llvm::Value *cv = cb.getCalledOperand()->stripPointerCasts();
            if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee();
            bool skipArgs = false;
            if (auto *cf = dyn_cast<Function>(cv)) {
                ci.name = cf->getName().str();
                ci.builtin = builtinOf(ci.name, ci, cb);
                if (ci.builtin == B_NOP) skipArgs = true;
                ci.fn = resolveFn(cf);
                if (ci.builtin == B_NONE && !ci.fn) { ci.builtin = B_UNSUP; }
            } else if (isa<InlineAsm>(cv)) { unsup(I, str(i)); break; }
            else { ci.indirect = true; ci.callee = operand(cb.getCalledOperand()); }
            if (!skipArgs)
                for (auto &a : cb.args()) {
                    if (a->getType()->isMetadataTy()) { ci.args.push_back(constOp(0)); ci.widths.push_back(64); continue; }
                    int aw = width(a->getType());
                    if (!aw) { unsup(I, str(i)); break; }
                    ci.args.push_back(operand(a)); ci.widths.push_back(aw);
                }
            if (I.op == O_UNSUP) break;
            F.calls.push_back(ci); I.ext = F.calls.size() - 1; break; }
        default: unsup(I, str(i)); break;
        }
        F.code.push_back(I);
    }
};

static void loadModules(const vector<string> &files, LLVMContext &ctx) {
    for (auto &f : files) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, ctx);
        if (!m) { err.print("symx", errs()); exit(3); }
        mods.push_back(std::move(m));
    }
    DL = &mods[0]->getDataLayout();
    for (size_t mi = 0; mi < mods.size(); mi++) {
        for (Function &f : *mods[mi]) {
            if (f.isDeclaration()) continue;
            Fn *x = new Fn(); x->name = f.getName().str(); x->f = &f; x->mod = mi;
            x->addr = FUNC_BASE + 16 * (fns.size() + 1);
            fns.push_back(x); fnByAddr[x->addr] = x; fnByLLVM[&f] = x;
            if (!f.hasLocalLinkage()) fnByName[x->name] = x;
        }
        for (GlobalVariable &g : mods[mi]->globals()) {
            if (g.isDeclaration()) continue;
            if (!g.hasLocalLinkage()) gvByName[g.getName().str()] = &g;
        }
    }
    uint64_t a = GLOB_BASE;
    for (size_t mi = 0; mi < mods.size(); mi++)
        for (GlobalVariable &g : mods[mi]->globals()) {
            if (g.isDeclaration()) continue;
            gvAddr[&g] = a;
            a += ((DL->getTypeAllocSize(g.getValueType()) + 15) & ~15ull) + 64;
        }
    for (size_t mi = 0; mi < mods.size(); mi++)
        for (GlobalVariable &g : mods[mi]->globals()) {
            if (g.isDeclaration()) continue;
            Obj *o = new Obj(gvAddr[&g], DL->getTypeAllocSize(g.getValueType()), strdup(g.getName().str().c_str()));
            memset(o->c, 0, o->size);
            if (g.hasInitializer()) writeInit(o, 0, g.getInitializer());
            o->ro = g.isConstant();
            globalInit.push_back({ObjP(o), (int)mi});
        }
}

// ------------------------------------------------------------------ state
struct Frame {
    Fn *fn; int pc;
    vector<Val> regs;
    vector<Val> varargs;
    int retReg = -1, retW = 0;
    size_t stackMark = 0; uint64_t stackTop = 0;
    bool tryMark = false;
};
typedef std::shared_ptr<vector<uint64_t>> ModelP;
struct Input { string name; E e; uint64_t c; int w; };
struct State {
    vector<Frame> fr;
    Region glob, heap, stack;
    uint64_t heapTop = HEAP_BASE, stackTop = STACK_BASE;
    vector<E> cons;
    vector<E> nonzero;          // bytes the constraints are known to exclude 0 for
    ModelP model;
    vector<Input> inputs;
    uint64_t steps = 0;
    uint64_t pathHash = 1469598103934665603ull;
    int forks = 0;
    vector<string> wit;
};

// ------------------------------------------------------------------ statistics
static struct Stats {
    uint64_t insts = 0, forks = 0, pathsDone = 0, pathsPruned = 0, pathsErr = 0, states = 1;
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    uint64_t checks = 0, checkQueries = 0;
    double solverTime = 0, maxQuery = 0;
} ST;
struct CheckStat { uint64_t evaluated = 0, symbolic = 0; };
static std::map<string, CheckStat> checkStats;
static std::map<string, uint64_t> witnesses;
struct Violation { string label, kind, where; vector<std::pair<string, uint64_t>> inputs; };
static vector<Violation> violations;
static std::map<string, int> violCount;
static string incomplete;
static vector<vector<std::pair<string, uint64_t>>> samples;
static uint64_t sampleSeen = 0;
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

// ------------------------------------------------------------------ solver
static Z3_solver Z;
struct QRes { int r; vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<string, QRes> qcache;
static vector<ModelP> recentModels;

static string whereNow();
// is (cons /\ cond) satisfiable?  1 sat (model out), 0 unsat, -1 unknown
static int solve(State &s, E cond, ModelP &out) {
    if (cond->k == K_CONST) { if (cond->val) { out = s.model; return 1; } return 0; }
    P.beginEval(*s.model);
    if (P.eval(cond)) { out = s.model; ST.modelHits++; return 1; }
    // slice
    vector<E> sel;
    const vector<uint32_t> *vs = cond->vars;
    vector<char> used(s.cons.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) {
            if (used[i]) continue;
            const vector<uint32_t> *cv = s.cons[i]->vars;
            bool inter = false;
            size_t x = 0, y = 0;
            while (x < vs->size() && y < cv->size()) { if ((*vs)[x] == (*cv)[y]) { inter = true; break; } if ((*vs)[x] < (*cv)[y]) x++; else y++; }
            if (inter) {
                used[i] = 1; sel.push_back(s.cons[i]);
                const vector<uint32_t> *u = P.unionVars(vs, cv);
                if (u != vs) { vs = u; ch = true; }
            }
        }
    }
    std::sort(sel.begin(), sel.end(), [](E a, E b) { return a->id < b->id; });
    string key((const char *)&cond->id, 4);
    for (E e : sel) key.append((const char *)&e->id, 4);
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        ST.cacheHits++;
        if (it->second.r == 1) {
            out = std::make_shared<vector<uint64_t>>(*s.model);
            for (auto &p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
        }
        return it->second.r;
    }
    auto finish = [&](const vector<std::pair<uint32_t, uint64_t>> &m) {
        out = std::make_shared<vector<uint64_t>>(*s.model);
        for (auto &p : m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
        recentModels.push_back(out);
        if (recentModels.size() > 24) recentModels.erase(recentModels.begin());
    };
    for (int ri = (int)recentModels.size() - 1; ri >= 0; ri--) {
        P.beginEval(*recentModels[ri]);
        if (!P.eval(cond)) continue;
        bool ok = true;
        for (E e : sel) if (!P.eval(e)) { ok = false; break; }
        if (!ok) continue;
        ST.modelHits++;
        QRes q; q.r = 1;
        const auto &rm = *recentModels[ri];
        for (uint32_t v : *vs) q.m.push_back({v, v < rm.size() ? rm[v] : 0});
        finish(q.m);
        qcache[key] = q;
        return 1;
    }
    double t0 = now();
    Z3_solver_push(P.z3, Z);
    for (E e : sel) Z3_solver_assert(P.z3, Z, P.bl(e));
    Z3_solver_assert(P.z3, Z, P.bl(cond));
    Z3_lbool r = Z3_solver_check(P.z3, Z);
    ST.queries++;
    QRes q;
    Z3_solver Zq = Z;
    if (r == Z3_L_UNDEF) {      // harder query: dedicated bit-vector solver
        Zq = Z3_mk_solver_for_logic(P.z3, Z3_mk_string_symbol(P.z3, "QF_BV"));
        Z3_solver_inc_ref(P.z3, Zq);
        Z3_params pr = Z3_mk_params(P.z3);
        Z3_params_inc_ref(P.z3, pr);
        Z3_params_set_uint(P.z3, pr, Z3_mk_string_symbol(P.z3, "timeout"), optSolverMs);
        Z3_solver_set_params(P.z3, Zq, pr);
        Z3_params_dec_ref(P.z3, pr);
        for (E e : sel) Z3_solver_assert(P.z3, Zq, P.bl(e));
        Z3_solver_assert(P.z3, Zq, P.bl(cond));
        r = Z3_solver_check(P.z3, Zq);
        if (optDebug) fprintf(stderr, "SLOW %.1fs -> %d @ %s\n%s\n", now() - t0, r, whereNow().c_str(), Z3_solver_to_string(P.z3, Zq));
    }
    if (r == Z3_L_TRUE) {
        ST.sat++; q.r = 1;
        Z3_model m = Z3_solver_get_model(P.z3, Zq);
        Z3_model_inc_ref(P.z3, m);
        for (uint32_t v : *vs) {
            Z3_ast val; uint64_t u = 0;
            if (v < P.z3vars.size() && P.z3vars[v] && Z3_model_eval(P.z3, m, P.z3vars[v], true, &val)) Z3_get_numeral_uint64(P.z3, val, &u);
            q.m.push_back({v, u});
        }
        Z3_model_dec_ref(P.z3, m);
    } else if (r == Z3_L_FALSE) { ST.unsat++; q.r = 0; }
    else { ST.unknown++; q.r = -1; if (incomplete.empty()) incomplete = "solver returned unknown"; }
    if (Zq != Z) Z3_solver_dec_ref(P.z3, Zq);
    Z3_solver_pop(P.z3, Z, 1);
    double dt = now() - t0;
    ST.solverTime += dt;
    if (dt > ST.maxQuery) ST.maxQuery = dt;
    if (q.r == 1) finish(q.m);
    qcache[key] = q;
    return q.r;
}

// ------------------------------------------------------------------ engine
static vector<State *> work;
static State *cur;
enum R { NEXT, JUMPED, DEAD };

static string whereStr(State &s) {
    string r;
    int n = 0;
    for (int i = (int)s.fr.size() - 1; i >= 0 && n < 8; i--, n++) { if (n) r += " < "; r += s.fr[i].fn->name; }
    return r;
}
static string whereNow() { return cur ? whereStr(*cur) : string(); }
static vector<std::pair<string, uint64_t>> inputsUnder(State &s, ModelP m) {
    vector<std::pair<string, uint64_t>> r;
    P.beginEval(*m);
    for (auto &i : s.inputs) r.push_back({i.name, i.e ? P.eval(i.e) : i.c});
    return r;
}
static void report(State &s, ModelP m, const string &kind, const string &label) {
    string key = kind + ":" + label;
    if (kind == "memory") key += whereStr(s);
    int &n = violCount[key];
    n++;
    if (!firstViol) firstViol = now();
    if (n > 3 || violations.size() > 60) return;
    violations.push_back({label, kind, whereStr(s), inputsUnder(s, m)});
    if (optDebug) fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), label.c_str(), whereStr(s).c_str());
}
static void addCons(State &s, E c) {
    if (c->k == K_CONST) return;
    if (c->k == K_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    for (E x : s.cons) if (x == c) return;
    s.cons.push_back(c);
}
static State *cloneState(State &s) {
    State *n = new State(s);
    ST.forks++; ST.states++;
    n->forks++;
    return n;
}
// Decide a symbolic condition. Returns 0/1 when only one side is feasible (no constraint needed),
// 2 when both are; then mT/mF are models of the sides.
static int decide(State &s, E cond, ModelP &mT, ModelP &mF) {
    if (cond->k == K_CONST) return cond->val ? 1 : 0;
    P.beginEval(*s.model);
    bool v = P.eval(cond);
    E other = v ? P.not1(cond) : cond;
    ModelP m2;
    int r = solve(s, other, m2);
    if (r != 1) return v ? 1 : 0;
    mT = v ? s.model : m2; mF = v ? m2 : s.model;
    return 2;
}
static R memError(State &s, const string &what) {
    report(s, s.model, "memory", what);
    ST.pathsErr++;
    return DEAD;
}
static Region &regionOf(State &s, uint64_t a) { return a >= STACK_BASE ? s.stack : a >= HEAP_BASE ? s.heap : s.glob; }
static Obj *findObj(State &s, uint64_t a, uint64_t n, bool forWrite) {
    if (a < GLOB_BASE) return nullptr;
    Region &r = regionOf(s, a);
    int i = r.find(a);
    if (i < 0) return nullptr;
    Obj *o = r.v[i].p;
    if (a - o->base + n > o->size || a - o->base > o->size) return nullptr;
    if (forWrite && o->refs > 1) { r.v[i] = ObjP(new Obj(*o)); o = r.v[i].p; }
    return o;
}
static Obj *writable(State &s, Obj *o0) {
    return findObj(s, o0->base, 0, true);
}
static string descAddr(State &s, uint64_t a) {
    char b[256];
    Region &r = regionOf(s, a);
    int i = a < GLOB_BASE ? -1 : r.find(a);
    if (a < 4096) snprintf(b, sizeof b, "null pointer (0x%llx)", (unsigned long long)a);
    else if (i >= 0) snprintf(b, sizeof b, "offset %lld of %s[%u]", (long long)(a - r.v[i].p->base), r.v[i].p->name, r.v[i].p->size);
    else snprintf(b, sizeof b, "invalid address 0x%llx", (unsigned long long)a);
    return b;
}
static Val readObj(Obj *o, uint64_t off, int w) {
    int n = (w + 7) / 8;
    bool sym = false;
    if (o->s) for (int i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) {
        uint64_t v = 0;
        memcpy(&v, o->c + off, n);
        return CV(v & maskw(w));
    }
    E r = nullptr;
    for (int i = n - 1; i >= 0; i--) {
        E b = o->s[off + i] ? o->s[off + i] : P.C(8, o->c[off + i]);
        r = r ? P.concat(r, b) : b;
    }
    if (w < n * 8) r = P.extract(r, 0, w);
    return mkV(r);
}
static void setByte(Obj *o, uint64_t off, E b) {
    if (b->k == K_CONST) { o->c[off] = b->val; if (o->s) o->s[off] = nullptr; return; }
    if (!o->s) { o->s = (E *)calloc(o->size ? o->size : 1, sizeof(E)); }
    o->s[off] = b;
}
static void writeObj(Obj *o, uint64_t off, const Val &v, int w) {
    int n = (w + 7) / 8;
    if (!v.e) {
        memcpy(o->c + off, &v.c, n);
        if (o->s) for (int i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    E e = v.e;
    if (e->w < n * 8) e = P.zext(e, n * 8);
    for (int i = 0; i < n; i++) setByte(o, off + i, P.extract(e, 8 * i, 8));
}
// Make an expression concrete: this state continues with one feasible value, a clone retries the
// instruction with the remaining values.
static uint64_t concretize(State &s, E e) {
    P.beginEval(*s.model);
    uint64_t v = P.eval(e);
    E c = P.bin(K_EQ, e, P.C(e->w, v));
    ModelP mT, mF;
    int d = decide(s, c, mT, mF);
    if (d == 2) {
        State *o = cloneState(s);
        o->model = mF; addCons(*o, P.not1(c));
        work.push_back(o);
        s.model = mT;
        addCons(s, c);
    }
    return v;
}
static void constLeaves(E e, std::set<uint64_t> &out) {
    if (e->k == K_CONST) { out.insert(e->val); return; }
    if (e->k == K_ITE) { constLeaves(e->b, out); constLeaves(e->c, out); }
}
// Symbolic address: returns concrete address if it could be fixed; otherwise object + offset expression.
struct Acc { bool sym = false; uint64_t addr = 0; Obj *o = nullptr; E off = nullptr; };
static R resolve(State &s, E a, int n, bool write, Acc &acc) {
    if (a->leafConst) { acc.addr = concretize(s, a); return NEXT; }
    P.beginEval(*s.model);
    uint64_t v = P.eval(a);
    Obj *o = findObj(s, v, n, false);
    if (!o) return memError(s, string(write ? "store" : "load") + " through a pointer that can be out of bounds: " + descAddr(s, v));
    // in bounds of o?
    uint64_t lim = o->size - n;
    E off = P.bin(K_SUB, a, P.C(64, o->base));
    E inb = P.not1(P.bin(K_ULT, P.C(64, lim), off));
    ModelP mT, mF;
    int d = decide(s, inb, mT, mF);
    if (d == 2) {
        State *ot = cloneState(s);
        ot->model = mF; addCons(*ot, P.not1(inb));
        work.push_back(ot);
        s.model = mT; addCons(s, inb);
    }
    if (P.isC(off)) { acc.addr = o->base + off->val; return NEXT; }
    acc.sym = true; acc.o = o; acc.off = off;
    return NEXT;
}
static void candidates(E off, uint64_t lim, vector<uint64_t> &out, size_t cap) {
    uint64_t unk = ~(off->kz | off->ko);
    // enumerate offsets compatible with known bits, ascending, <= lim
    if (unk == ~0ull || __builtin_popcountll(unk) > 24) {
        for (uint64_t i = 0; i <= lim && out.size() <= cap; i++) if ((i & off->kz) == 0 && (~i & off->ko) == 0) out.push_back(i);
        return;
    }
    uint64_t sub = 0;
    do {
        uint64_t v = off->ko | sub;
        if (v > lim) break;
        out.push_back(v);
        if (out.size() > cap) return;
        sub = (sub - unk) & unk;
    } while (sub);
}
static R doLoad(State &s, const Val &a, int w, Val &res) {
    int n = (w + 7) / 8;
    uint64_t addr = a.c;
    if (a.e) {
        Acc acc;
        R r = resolve(s, a.e, n, false, acc);
        if (r != NEXT) return r;
        if (acc.sym) {
            vector<uint64_t> cand;
            candidates(acc.off, acc.o->size - n, cand, 40000);
            std::map<uint64_t, uint64_t> cnt;
            vector<std::pair<uint64_t, Val>> vals;
            size_t symb = 0;
            for (uint64_t c : cand) { Val v = readObj(acc.o, c, w); if (v.e) symb++; else cnt[v.c]++; vals.push_back({c, v}); }
            // tables made of a few runs of equal or consecutive values (hex digits, identity and case maps): compact piecewise form
            if (cand.size() <= 40000 && !symb && vals.size() >= 6) {
                struct Run { uint64_t lo, hi, v; int slope; };
                vector<Run> runs;
                uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
                for (auto &p : vals) {
                    uint64_t v = p.second.c & mask;
                    if (!runs.empty()) {
                        Run &q = runs.back();
                        bool eq = v == q.v, inc = v == ((q.v + (p.first - q.lo)) & mask);
                        if (q.slope < 0 ? (eq || inc) : q.slope ? inc : eq) { if (q.slope < 0) q.slope = !eq; q.hi = p.first; continue; }
                    }
                    runs.push_back({p.first, p.first, v, -1});
                }
                if (runs.size() <= 8 && runs.size() * 3 <= vals.size()) {
                    E r2 = nullptr;
                    for (auto it = runs.rbegin(); it != runs.rend(); ++it) {
                        E ve = it->slope == 1 ? P.bin(K_ADD, P.extract(acc.off, 0, w), P.C(w, (it->v - it->lo) & mask)) : P.C(w, it->v);
                        r2 = r2 ? P.ite(P.bin(K_ULT, acc.off, P.C(64, it->hi + 1)), ve, r2) : ve;
                    }
                    res = mkV(r2);
                    return NEXT;
                }
            }
            if (cand.size() <= 40000 && cnt.size() + symb <= 600) {
                uint64_t best = 0, bn = 0;
                for (auto &p : cnt) if (p.second > bn) { bn = p.second; best = p.first; }
                // group equal constants: disjunction of offsets when few, else per-offset chain
                E r2 = nullptr;
                if (bn) r2 = P.C(w, best);
                for (auto it = vals.rbegin(); it != vals.rend(); ++it) {
                    Val &v = it->second;
                    if (!v.e && bn && v.c == best) continue;
                    E ve = toE(v, w);
                    r2 = r2 ? P.ite(P.bin(K_EQ, acc.off, P.C(64, it->first)), ve, r2) : ve;
                }
                res = mkV(r2);
                return NEXT;
            }
            addr = acc.o->base + concretize(s, acc.off);
        } else addr = acc.addr;
    }
    Obj *o = findObj(s, addr, n, false);
    if (!o) return memError(s, "load of " + std::to_string(n) + " byte(s) at " + descAddr(s, addr));
    res = readObj(o, addr - o->base, w);
    return NEXT;
}
static R doStore(State &s, const Val &a, const Val &v, int w) {
    int n = (w + 7) / 8;
    uint64_t addr = a.c;
    if (a.e) {
        Acc acc;
        R r = resolve(s, a.e, n, true, acc);
        if (r != NEXT) return r;
        if (acc.sym) {
            vector<uint64_t> cand;
            candidates(acc.off, acc.o->size - n, cand, 2048);
            if (cand.size() <= 2048) {
                if (acc.o->ro) return memError(s, string("store to constant ") + acc.o->name);
                Obj *o = writable(s, acc.o);
                E ve = toE(v, w); if (w < n * 8) ve = P.zext(ve, n * 8);
                for (uint64_t c : cand) {
                    E hit = P.bin(K_EQ, acc.off, P.C(64, c));
                    for (int i = 0; i < n; i++) {
                        E old = o->s && o->s[c + i] ? o->s[c + i] : P.C(8, o->c[c + i]);
                        setByte(o, c + i, P.ite(hit, P.extract(ve, 8 * i, 8), old));
                    }
                }
                return NEXT;
            }
            addr = acc.o->base + concretize(s, acc.off);
        } else addr = acc.addr;
    }
    Obj *o = findObj(s, addr, n, true);
    if (!o) return memError(s, "store of " + std::to_string(n) + " byte(s) at " + descAddr(s, addr));
    if (o->ro) return memError(s, string("store to constant ") + o->name);
    writeObj(o, addr - o->base, v, w);
    return NEXT;
}
static bool readCStr(State &s, uint64_t a, string &out) {
    out.clear();
    for (;; a++) {
        Obj *o = findObj(s, a, 1, false);
        if (!o) return false;
        if (o->s && o->s[a - o->base]) return false;
        char ch = o->c[a - o->base];
        if (!ch) return true;
        out += ch;
    }
}

static inline Val &get(Frame &f, int i) { return i >= 0 ? f.regs[i] : f.fn->consts[~i]; }

static void takeEdge(Frame &f, int e) {
    Edge &ed = f.fn->edges[e];
    if (ed.copies.size() == 1) f.regs[ed.copies[0].first] = get(f, ed.copies[0].second);
    else if (!ed.copies.empty()) {
        Val tmp[64]; vector<Val> big;
        Val *t = tmp;
        size_t n = ed.copies.size();
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = get(f, ed.copies[i].second);
        for (size_t i = 0; i < n; i++) f.regs[ed.copies[i].first] = t[i];
    }
    f.pc = f.fn->blockStart[ed.target];
    f.fn->blockHit[ed.target] = 1;
}
static void pushFrame(State &s, Fn *fn, const vector<Val> &args, int retReg, int retW) {
    if (!fn->translated) { Translator t(*fn); t.run(); }
    s.fr.emplace_back();
    Frame &f = s.fr.back();
    f.fn = fn; f.pc = 0;
    f.regs.assign(fn->nregs, CV(0));
    for (size_t i = 0; i < args.size() && i < (size_t)fn->nparams; i++) f.regs[i] = args[i];
    if (fn->vararg) for (size_t i = fn->nparams; i < args.size(); i++) f.varargs.push_back(args[i]);
    f.retReg = retReg; f.retW = retW;
    f.stackMark = s.stack.v.size(); f.stackTop = s.stackTop;
    fn->blockHit[0] = 1;
}
static void popFrame(State &s) {
    Frame &f = s.fr.back();
    s.stack.v.resize(f.stackMark);
    s.stackTop = f.stackTop;
    s.fr.pop_back();
}
static uint64_t newStackObj(State &s, uint64_t size, const char *name) {
    Obj *o = new Obj(s.stackTop, size, name);
    memset(o->c, 0xA5, size);
    s.stack.v.push_back(ObjP(o));
    s.stackTop += ((size + 15) & ~15ull) + 32;
    return o->base;
}
static uint64_t newHeapObj(State &s, uint64_t size) {
    Obj *o = new Obj(s.heapTop, size, "heap block");
    memset(o->c, 0xA5, size);
    s.heap.v.push_back(ObjP(o));
    s.heapTop += ((size + 15) & ~15ull) + 32;
    return o->base;
}
static R endPath(State &s) {
    ST.pathsDone++;
    for (auto &w : s.wit) witnesses[w]++;
    sampleSeen++;
    if ((int)samples.size() < optSamples) samples.push_back(inputsUnder(s, s.model));
    else if (optSamples) { uint64_t k = rng() % sampleSeen; if (k < (uint64_t)optSamples) samples[k] = inputsUnder(s, s.model); }
    return DEAD;
}
static E cmpE(unsigned pred, E a, E b) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return P.bin(K_EQ, a, b);
    case CmpInst::ICMP_NE: return P.not1(P.bin(K_EQ, a, b));
    case CmpInst::ICMP_ULT: return P.bin(K_ULT, a, b);
    case CmpInst::ICMP_ULE: return P.not1(P.bin(K_ULT, b, a));
    case CmpInst::ICMP_UGT: return P.bin(K_ULT, b, a);
    case CmpInst::ICMP_UGE: return P.not1(P.bin(K_ULT, a, b));
    case CmpInst::ICMP_SLT: return P.bin(K_SLT, a, b);
    case CmpInst::ICMP_SLE: return P.not1(P.bin(K_SLT, b, a));
    case CmpInst::ICMP_SGT: return P.bin(K_SLT, b, a);
    case CmpInst::ICMP_SGE: return P.not1(P.bin(K_SLT, a, b));
    }
    abort();
}
static bool cmpC(unsigned pred, uint64_t a, uint64_t b, int w) {
    int64_t x = sextw(a, w), y = sextw(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y;
    case CmpInst::ICMP_SLE: return x <= y;
    case CmpInst::ICMP_SGT: return x > y;
    case CmpInst::ICMP_SGE: return x >= y;
    }
    abort();
}
static E newVar(const string &name, uint32_t seq, int w) {
    static std::map<std::pair<uint32_t, int>, E> tab;
    auto k = std::make_pair(seq, w);
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    uint32_t id = P.varNames.size();
    P.varNames.push_back(name); P.varWidth.push_back(w);
    return tab[k] = P.raw(K_VAR, w, id, nullptr, nullptr, nullptr);
}
// copy n bytes between objects (n concrete)
static R copyBytes(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return NEXT;
    Obj *so = findObj(s, src, n, false);
    if (!so) return memError(s, "copy of " + std::to_string(n) + " byte(s) from " + descAddr(s, src));
    Obj *dob = findObj(s, d, n, true);
    if (!dob) return memError(s, "copy of " + std::to_string(n) + " byte(s) to " + descAddr(s, d));
    if (dob->ro) return memError(s, string("store to constant ") + dob->name);
    so = findObj(s, src, n, false);
    uint64_t so_ = src - so->base, do_ = d - dob->base;
    vector<E> tmp;
    if (so->s) tmp.assign(so->s + so_, so->s + so_ + n);
    memmove(dob->c + do_, so->c + so_, n);
    if (so->s) {
        bool any = false;
        for (auto e : tmp) if (e) { any = true; break; }
        if (any && !dob->s) dob->s = (E *)calloc(dob->size, sizeof(E));
        if (dob->s) for (uint64_t i = 0; i < n; i++) dob->s[do_ + i] = tmp[i];
    } else if (dob->s) for (uint64_t i = 0; i < n; i++) dob->s[do_ + i] = nullptr;
    return NEXT;
}
static bool byteZeroness(State &s, Obj *o, uint64_t off, bool &zero) {  // known?
    if (o->s && o->s[off]) {
        E e = o->s[off];
        zero = false;
        if (e->ko || std::find(s.nonzero.begin(), s.nonzero.end(), e) != s.nonzero.end()) return true;
        ModelP t, f;
        if (decide(s, P.bin(K_EQ, e, P.C(8, 0)), t, f) != 0) return false;
        if (s.nonzero.size() < 256) s.nonzero.push_back(e);
        return true;
    }
    zero = o->c[off] == 0;
    return true;
}
// strlen when every zero test has one outcome; -1 otherwise, -2 out of bounds
static int64_t quickStrlen(State &s, uint64_t a) {
    Obj *o = findObj(s, a, 1, false);
    if (!o) return -2;
    if (!o->s) {
        const void *z = memchr(o->c + (a - o->base), 0, o->size - (a - o->base));
        return z ? (int64_t)((const uint8_t *)z - o->c - (a - o->base)) : -2;
    }
    for (uint64_t i = a - o->base; i < o->size; i++) {
        bool z;
        if (!byteZeroness(s, o, i, z)) return -1;
        if (z) return i - (a - o->base);
    }
    return -2;
}

static R doCall(State &s, Frame &f, const Inst &I);

static R builtin(State &s, Frame &f, const Inst &I, const CallInfo &ci, bool &fallback) {
    auto arg = [&](int i) -> Val & { return get(f, ci.args[i]); };
    auto setR = [&](const Val &v) { if (I.dst >= 0) f.regs[I.dst] = v; };
    auto needC = [&](int i) -> uint64_t { Val &v = arg(i); if (v.e) { v = CV(concretize(s, v.e)); } return v.c; };
    int w = I.w;
    switch (ci.builtin) {
    case B_NOP: setR(CV(0)); return NEXT;
    case B_EXPECT: setR(arg(0)); return NEXT;
    case B_OBJSIZE: setR(CV(~0ull)); return NEXT;
    case B_ISCONST: setR(CV(0)); return NEXT;
    case B_SYM: {
        string name; readCStr(s, arg(0).c, name);
        int bits = (int)arg(1).c;
        E v = newVar(name, s.inputs.size(), bits);
        s.inputs.push_back({name, v, 0, bits});
        setR(mkV(bits < 64 ? P.zext(v, 64) : v));
        return NEXT; }
    case B_CHOOSE: {
        string name; readCStr(s, arg(0).c, name);
        uint64_t n = needC(1);
        string only; auto pit = params.find("choose." + name);
        vector<uint64_t> vals;
        for (uint64_t i = 0; i < n; i++) vals.push_back(i);
        if (pit != params.end()) { // "a-b,c"
            vals.clear();
            const char *p = pit->second.c_str();
            while (*p) {
                char *e; uint64_t lo = strtoull(p, &e, 0), hi = lo;
                if (*e == '-') { hi = strtoull(e + 1, &e, 0); }
                for (uint64_t x = lo; x <= hi && x < n; x++) vals.push_back(x);
                p = *e == ',' ? e + 1 : e;
                if (*e && *e != ',') break;
            }
            // "i%k" sharding
            size_t pc = pit->second.find('%');
            if (pc != string::npos) {
                vals.clear();
                uint64_t i = strtoull(pit->second.c_str(), nullptr, 0), k = strtoull(pit->second.c_str() + pc + 1, nullptr, 0);
                for (uint64_t x = i; x < n; x += k) vals.push_back(x);
            }
        }
        if (vals.empty()) { ST.pathsPruned++; return DEAD; }
        for (size_t i = vals.size(); i-- > 1;) {
            State *o = cloneState(s);
            Frame &of = o->fr.back();
            if (I.dst >= 0) of.regs[I.dst] = CV(vals[i]);
            o->inputs.push_back({name, nullptr, vals[i], 64});
            of.pc++;
            work.push_back(o);
        }
        s.inputs.push_back({name, nullptr, vals[0], 64});
        setR(CV(vals[0]));
        return NEXT; }
    case B_ASSUME: {
        Val v = arg(0);
        if (!v.e) { if (v.c) return NEXT; ST.pathsPruned++; return DEAD; }
        E c = v.e->w == 1 ? v.e : P.not1(P.bin(K_EQ, v.e, P.C(v.e->w, 0)));
        if (P.isC(c)) { if (c->val) return NEXT; ST.pathsPruned++; return DEAD; }
        ModelP m;
        int r = solve(s, c, m);
        if (r != 1) { ST.pathsPruned++; return DEAD; }
        s.model = m; addCons(s, c);
        return NEXT; }
    case B_FEASIBLE: {  // 0: must be false, 1: may be true (and may be false), 2: must be true; no fork
        Val v = arg(0);
        if (!v.e) { setR(CV(v.c ? 2 : 0)); return NEXT; }
        E c = v.e->w == 1 ? v.e : P.not1(P.bin(K_EQ, v.e, P.C(v.e->w, 0)));
        ModelP mT, mF; int d = decide(s, c, mT, mF);
        setR(CV(d == 2 ? 1 : d == 1 ? 2 : 0));
        return NEXT; }
    case B_CHECK: {
        string label; readCStr(s, arg(1).c, label);
        CheckStat &cs = checkStats[label];
        cs.evaluated++; ST.checks++;
        Val v = arg(0);
        if (!v.e) {
            if (v.c) return NEXT;
            report(s, s.model, "check", label);
            ST.pathsErr++;
            return DEAD;
        }
        cs.symbolic++; ST.checkQueries++;
        E c = v.e->w == 1 ? v.e : P.not1(P.bin(K_EQ, v.e, P.C(v.e->w, 0)));
        if (P.isC(c) && c->val) return NEXT;
        ModelP m;
        int r = solve(s, P.not1(c), m);
        if (r == 1) report(s, m, "check", label);
        if (r == 0) return NEXT;
        r = solve(s, c, m);
        if (r != 1) { ST.pathsErr++; return DEAD; }
        s.model = m; addCons(s, c);
        return NEXT; }
    case B_WITNESS: { string l; readCStr(s, arg(0).c, l); s.wit.push_back(l); return NEXT; }
    case B_ISSYM: setR(CV(arg(0).e != nullptr)); return NEXT;
    case B_CONCR: { uint64_t v = arg(0).e ? concretize(s, arg(0).e) : arg(0).c; setR(CV(v)); return NEXT; }
    case B_PARAM: { string n; readCStr(s, arg(0).c, n); auto it = params.find(n);
        setR(it == params.end() ? arg(1) : CV((uint64_t)strtoll(it->second.c_str(), nullptr, 0))); return NEXT; }
    case B_DUMP: { string n; readCStr(s, arg(0).c, n); Val v = arg(1);
        if (v.e) { P.beginEval(*s.model); fprintf(stderr, "DUMP %s: sym w=%d k=%d id=%u model=%llx\n", n.c_str(), v.e->w, v.e->k, v.e->id, (unsigned long long)P.eval(v.e)); }
        else fprintf(stderr, "DUMP %s: %llx\n", n.c_str(), (unsigned long long)v.c);
        return NEXT; }
    case B_CALLMAIN: {
        Fn *fn = fnByAddr[arg(0).c];
        if (!fn || !fn->f) { incomplete = "vp_call_main: bad function"; return DEAD; }
        vector<Val> a; for (size_t i = 1; i < ci.args.size(); i++) a.push_back(arg(i));
        int dst = I.dst, ww = I.w;
        f.pc++;
        pushFrame(s, fn, a, dst, ww);
        s.fr.back().tryMark = true;
        return JUMPED; }
    case B_EXIT: {
        Val v = arg(0);
        while (s.fr.size() > 1 && !s.fr.back().tryMark) popFrame(s);
        if (!s.fr.back().tryMark) { return endPath(s); }
        int rr = s.fr.back().retReg;
        popFrame(s);
        if (rr >= 0) s.fr.back().regs[rr] = v;
        return JUMPED; }
    case B_RESET: {
        for (auto &p : globalInit) {
            if (p.second == (int)mods.size() - 1) continue;      // runtime module keeps its state
            int i = s.glob.find(p.first.p->base);
            s.glob.v[i] = p.first;
        }
        return NEXT; }
    case B_MSIZE: { uint64_t a = needC(0); Obj *o = findObj(s, a, 0, false); if (!o || o->base != a) return memError(s, "realloc of " + descAddr(s, a)); setR(CV(o->size)); return NEXT; }
    case B_READABLE: { uint64_t a = needC(0); setR(CV(findObj(s, a, 1, false) != nullptr)); return NEXT; }
    case B_MALLOC: setR(CV(newHeapObj(s, needC(0)))); return NEXT;
    case B_FREE: {
        uint64_t a = needC(0);
        if (!a) return NEXT;
        int i = a >= HEAP_BASE && a < STACK_BASE ? s.heap.find(a) : -1;
        if (i < 0 || s.heap.v[i].p->base != a) return memError(s, "free of " + descAddr(s, a));
        s.heap.v.erase(s.heap.v.begin() + i);
        return NEXT; }
    case B_MEMCPY: case B_MEMMOVE: {
        uint64_t d = needC(0), sr = needC(1), n = needC(2);
        R r = copyBytes(s, d, sr, n);
        if (r == NEXT) setR(CV(d));
        return r; }
    case B_MEMSET: {
        uint64_t d = needC(0), n = needC(2);
        if (n) {
            Obj *o = findObj(s, d, n, true);
            if (!o) return memError(s, "memset of " + std::to_string(n) + " byte(s) at " + descAddr(s, d));
            if (o->ro) return memError(s, string("store to constant ") + o->name);
            Val v = arg(1);
            if (!v.e) { memset(o->c + (d - o->base), (int)v.c, n); if (o->s) for (uint64_t i = 0; i < n; i++) o->s[d - o->base + i] = nullptr; }
            else { E b = v.e->w > 8 ? P.extract(v.e, 0, 8) : v.e; for (uint64_t i = 0; i < n; i++) setByte(o, d - o->base + i, b); }
        }
        setR(CV(d));
        return NEXT; }
    case B_STRLEN: {
        if (arg(0).e) { fallback = true; return NEXT; }
        int64_t n = quickStrlen(s, arg(0).c);
        if (n < 0) { fallback = true; return NEXT; }
        setR(CV(n));
        return NEXT; }
    case B_STRCPY: {
        if (arg(0).e || arg(1).e) { fallback = true; return NEXT; }
        int64_t n = quickStrlen(s, arg(1).c);
        if (n < 0) { fallback = true; return NEXT; }
        uint64_t d = arg(0).c;
        R r = copyBytes(s, d, arg(1).c, n + 1);
        if (r == NEXT) setR(CV(d));
        return r; }
    case B_VASTART: {
        uint64_t ap = needC(0);
        uint64_t area = newStackObj(s, 8 * f.varargs.size() + 8, "varargs");
        for (size_t i = 0; i < f.varargs.size(); i++) { Val v = f.varargs[i]; if (v.e && v.e->w < 64) v.e = P.zext(v.e, 64); doStore(s, CV(area + 8 * i), v, 64); }
        doStore(s, CV(ap), CV(48), 32); doStore(s, CV(ap + 4), CV(304), 32); doStore(s, CV(ap + 8), CV(area), 64); doStore(s, CV(ap + 16), CV(0), 64);
        return NEXT; }
    case B_VACOPY: return copyBytes(s, needC(0), needC(1), 24);
    case B_ABORT: return memError(s, "abort() reached");
    case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: {
        E a = toE(arg(0), w), b = toE(arg(1), w);
        E lt = P.bin(ci.builtin == B_SMAX || ci.builtin == B_SMIN ? K_SLT : K_ULT, a, b);
        bool mx = ci.builtin == B_SMAX || ci.builtin == B_UMAX;
        setR(mkV(P.ite(lt, mx ? b : a, mx ? a : b)));
        return NEXT; }
    case B_ABS: { E a = toE(arg(0), w); setR(mkV(P.ite(P.extract(a, w - 1, 1), P.bin(K_SUB, P.C(w, 0), a), a))); return NEXT; }
    case B_FSHL: case B_FSHR: {
        uint64_t k = needC(2) % w; E a = toE(arg(0), w), b = toE(arg(1), w);
        if (ci.builtin == B_FSHL) setR(k == 0 ? arg(0) : mkV(P.bin(K_OR, P.bin(K_SHL, a, P.C(w, k)), P.bin(K_LSHR, b, P.C(w, w - k)))));
        else setR(k == 0 ? arg(1) : mkV(P.bin(K_OR, P.bin(K_SHL, a, P.C(w, w - k)), P.bin(K_LSHR, b, P.C(w, k)))));
        return NEXT; }
    case B_BSWAP: { E a = toE(arg(0), w), r = nullptr; for (int i = 0; i < w; i += 8) { E b = P.extract(a, i, 8); r = r ? P.concat(r, b) : b; } setR(mkV(r)); return NEXT; }
    case B_BITREV: { E a = toE(arg(0), w), r = nullptr; for (int i = 0; i < w; i++) { E b = P.extract(a, i, 1); r = r ? P.concat(r, b) : b; } setR(mkV(r)); return NEXT; }
    case B_CTPOP: { E a = toE(arg(0), w), r = P.C(w, 0); for (int i = 0; i < w; i++) r = P.bin(K_ADD, r, P.zext(P.extract(a, i, 1), w)); setR(mkV(r)); return NEXT; }
    case B_CTLZ: { E a = toE(arg(0), w), r = P.C(w, w); for (int i = 0; i < w; i++) r = P.ite(P.extract(a, i, 1), P.C(w, w - 1 - i), r); setR(mkV(r)); return NEXT; }
    case B_CTTZ: { E a = toE(arg(0), w), r = P.C(w, w); for (int i = w - 1; i >= 0; i--) r = P.ite(P.extract(a, i, 1), P.C(w, i), r); setR(mkV(r)); return NEXT; }
    case B_USUBSAT: { E a = toE(arg(0), w), b = toE(arg(1), w); setR(mkV(P.ite(P.bin(K_ULT, a, b), P.C(w, 0), P.bin(K_SUB, a, b)))); return NEXT; }
    case B_UADDSAT: { E a = toE(arg(0), w), b = toE(arg(1), w), r = P.bin(K_ADD, a, b); setR(mkV(P.ite(P.bin(K_ULT, r, a), P.C(w, ~0ull), r))); return NEXT; }
    case B_OVF: {
        int ww = ci.widths[0];
        E a = toE(arg(0), ww), b = toE(arg(1), ww), r, o;
        if (ww > 32 && (ci.sub >= 4)) {
            if (arg(0).e || arg(1).e) { incomplete = "mul.with.overflow on symbolic 64-bit"; return DEAD; }
            uint64_t res; bool ov = ci.sub == 4 ? __builtin_mul_overflow(arg(0).c, arg(1).c, &res) : __builtin_mul_overflow((int64_t)arg(0).c, (int64_t)arg(1).c, (int64_t *)&res);
            f.regs[I.dst] = CV(res); f.regs[I.dst + 1] = CV(ov); return NEXT;
        }
        switch (ci.sub) {
        case 0: r = P.bin(K_ADD, a, b); o = P.bin(K_ULT, r, a); break;
        case 1: r = P.bin(K_ADD, a, b); o = P.bin(K_AND, P.bin(K_EQ, P.extract(a, ww - 1, 1), P.extract(b, ww - 1, 1)), P.bin(K_XOR, P.extract(a, ww - 1, 1), P.extract(r, ww - 1, 1))); break;
        case 2: r = P.bin(K_SUB, a, b); o = P.bin(K_ULT, a, b); break;
        case 3: r = P.bin(K_SUB, a, b); o = P.bin(K_AND, P.bin(K_XOR, P.extract(a, ww - 1, 1), P.extract(b, ww - 1, 1)), P.bin(K_XOR, P.extract(a, ww - 1, 1), P.extract(r, ww - 1, 1))); break;
        default: {
            bool sg = ci.sub == 5;
            E x = sg ? P.sext(a, 2 * ww) : P.zext(a, 2 * ww), y = sg ? P.sext(b, 2 * ww) : P.zext(b, 2 * ww), m = P.bin(K_MUL, x, y);
            r = P.extract(m, 0, ww);
            o = P.not1(P.bin(K_EQ, m, sg ? P.sext(r, 2 * ww) : P.zext(r, 2 * ww))); break; }
        }
        f.regs[I.dst] = mkV(r); f.regs[I.dst + 1] = mkV(o);
        return NEXT; }
    case B_UNSUP:
        incomplete = "call of unmodelled function " + ci.name + " in " + whereStr(s);
        return DEAD;
    }
    incomplete = "internal: builtin " + ci.name;
    return DEAD;
}
static R doCall(State &s, Frame &f, const Inst &I) {
    const CallInfo &ci = f.fn->calls[I.ext];
    Fn *target = ci.fn;
    if (ci.builtin != B_NONE) {
        bool fb = false;
        R r = builtin(s, f, I, ci, fb);
        if (!fb) return r;
        if (!target) { incomplete = "no body for " + ci.name; return DEAD; }
    }
    if (ci.indirect) {
        Val v = get(f, ci.callee);
        uint64_t a = v.e ? concretize(s, v.e) : v.c;
        auto it = fnByAddr.find(a);
        if (it == fnByAddr.end()) return memError(s, "call through invalid function pointer " + descAddr(s, a));
        target = it->second;
        if (!target->f) { incomplete = "indirect call of unmodelled function " + target->name; return DEAD; }
        if (target->name == "malloc" || target->name == "free") { incomplete = "indirect call of " + target->name; return DEAD; }
    }
    vector<Val> args;
    args.reserve(ci.args.size());
    for (int a : ci.args) args.push_back(get(f, a));
    // K&R style calls: widen or narrow arguments to the parameter types
    if (target->f) {
        size_t i = 0;
        for (const Argument &p : target->f->args()) {
            if (i >= args.size()) break;
            int pw = Translator::width(p.getType()), aw = ci.widths[i];
            if (pw && aw && pw != aw) {
                Val &v = args[i];
                if (v.e) v = mkV(pw > aw ? P.zext(v.e, pw) : P.extract(v.e, 0, pw));
                else v.c &= maskw(std::min(pw, aw));
            }
            i++;
        }
    }
    int dst = I.dst, w = I.w;
    f.pc++;
    if (s.fr.size() > 6000) return memError(s, "stack overflow (call depth 6000)");
    pushFrame(s, target, args, dst, w);
    if (target->f) {
        // structures passed by value: the callee works on its own copy
        size_t i = 0;
        for (const Argument &p : target->f->args()) {
            if (i >= args.size()) break;
            if (p.hasByValAttr()) {
                uint64_t n = DL->getTypeAllocSize(p.getParamByValType());
                uint64_t src = args[i].e ? concretize(s, args[i].e) : args[i].c;
                uint64_t d = newStackObj(s, n, "argument passed by value");
                R r = copyBytes(s, d, src, n);
                if (r == DEAD) return r;
                s.fr.back().regs[i] = CV(d);
            }
            i++;
        }
    }
    return JUMPED;
}

static R step(State &s) {
    Frame &f = s.fr.back();
    const Inst &I = f.fn->code[f.pc];
    ST.insts++; s.steps++;
    switch (I.op) {
    case O_BIN: {
        Val &a = get(f, I.a), &b = get(f, I.b);
        Kind k = (Kind)I.sub;
        int w = I.w;
        if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
            E z = P.bin(K_EQ, toE(b, w), P.C(w, 0));
            if (k == K_SDIV || k == K_SREM) {
                E ov = P.bin(K_AND, P.bin(K_EQ, toE(b, w), P.C(w, ~0ull)), P.bin(K_EQ, toE(a, w), P.C(w, 1ull << (w - 1))));
                z = P.bin(K_OR, z, ov);
            }
            if (P.isC(z)) { if (z->val) return memError(s, "division trap (zero divisor or overflow)"); }
            else {
                ModelP mT, mF;
                int d = decide(s, z, mT, mF);
                if (d == 1) return memError(s, "division trap (zero divisor or overflow)");
                if (d == 2) {
                    ModelP keep = s.model; s.model = mT;
                    report(s, mT, "memory", "division trap (zero divisor or overflow)");
                    s.model = mF; addCons(s, P.not1(z));
                }
            }
        }
        Val &r = f.regs[I.dst];
        if (!a.e && !b.e) {
            uint64_t x = a.c, y = b.c, o;
            switch (k) {
            case K_ADD: o = x + y; break;
            case K_SUB: o = x - y; break;
            case K_AND: o = x & y; break;
            case K_OR: o = x | y; break;
            case K_XOR: o = x ^ y; break;
            case K_MUL: o = x * y; break;
            case K_SHL: case K_LSHR: case K_ASHR: {
                int sw = w <= 32 ? 32 : 64;
                y &= sw - 1;            // x86 semantics for oversized counts
                if (!ExprPool::foldBin(k, w, x, y, o)) abort();
                break; }
            default: ExprPool::foldBin(k, w, x, y, o); break;
            }
            r = CV(o & maskw(w));
        } else {
            E x = toE(a, w), y = toE(b, w);
            if ((k == K_SHL || k == K_LSHR || k == K_ASHR) && !P.isC(y) && (w == 32 || w == 64)) y = P.bin(K_AND, y, P.C(w, w - 1));
            else if ((k == K_SHL || k == K_LSHR || k == K_ASHR) && P.isC(y) && (w == 32 || w == 64)) y = P.C(w, y->val & (w - 1));
            r = mkV(P.bin(k, x, y));
        }
        f.pc++; return NEXT; }
    case O_ICMP: {
        Val &a = get(f, I.a), &b = get(f, I.b);
        if (!a.e && !b.e) f.regs[I.dst] = CV(cmpC(I.sub, a.c, b.c, I.w2));
        else f.regs[I.dst] = mkV(cmpE(I.sub, toE(a, I.w2), toE(b, I.w2)));
        f.pc++; return NEXT; }
    case O_SELECT: {
        Val &c = get(f, I.a);
        if (!c.e) { f.regs[I.dst] = get(f, c.c & 1 ? I.b : I.c); }
        else f.regs[I.dst] = mkV(P.ite(c.e, toE(get(f, I.b), I.w), toE(get(f, I.c), I.w)));
        f.pc++; return NEXT; }
    case O_ZEXT: { Val &a = get(f, I.a); f.regs[I.dst] = a.e ? mkV(P.zext(a.e, I.w)) : a; f.pc++; return NEXT; }
    case O_SEXT: { Val &a = get(f, I.a); f.regs[I.dst] = a.e ? mkV(P.sext(a.e, I.w)) : CV((uint64_t)sextw(a.c, I.w2) & maskw(I.w)); f.pc++; return NEXT; }
    case O_TRUNC: { Val &a = get(f, I.a); f.regs[I.dst] = a.e ? mkV(P.extract(a.e, 0, I.w)) : CV(a.c & maskw(I.w)); f.pc++; return NEXT; }
    case O_MOV: f.regs[I.dst] = get(f, I.a); f.pc++; return NEXT;
    case O_LOAD: {
        Val res;
        R r = doLoad(s, get(f, I.a), I.w, res);
        if (r != NEXT) return r;
        f.regs[I.dst] = res; f.pc++; return NEXT; }
    case O_STORE: {
        R r = doStore(s, get(f, I.b), get(f, I.a), I.w);
        if (r != NEXT) return r;
        f.pc++; return NEXT; }
    case O_GEP: {
        Val &b = get(f, I.a);
        if (I.ext < 0) { f.regs[I.dst] = b.e ? mkV(P.bin(K_ADD, b.e, P.C(64, I.imm))) : CV(b.c + I.imm); f.pc++; return NEXT; }
        GepInfo &gi = f.fn->geps[I.ext];
        bool sym = b.e;
        for (auto &p : gi.idx) if (get(f, p.first).e) sym = true;
        if (!sym) {
            uint64_t a = b.c + I.imm;
            for (size_t i = 0; i < gi.idx.size(); i++) a += (uint64_t)sextw(get(f, gi.idx[i].first).c, gi.widths[i]) * gi.idx[i].second;
            f.regs[I.dst] = CV(a);
        } else {
            E a = P.bin(K_ADD, toE(b, 64), P.C(64, I.imm));
            for (size_t i = 0; i < gi.idx.size(); i++) {
                E x = P.sext(toE(get(f, gi.idx[i].first), gi.widths[i]), 64);
                a = P.bin(K_ADD, a, P.bin(K_MUL, x, P.C(64, gi.idx[i].second)));
            }
            f.regs[I.dst] = mkV(a);
        }
        f.pc++; return NEXT; }
    case O_ALLOCA: {
        Val &n = get(f, I.a);
        uint64_t c = n.e ? concretize(s, n.e) : n.c;
        static std::map<Fn *, const char *> names;
        const char *&nm = names[f.fn];
        if (!nm) nm = strdup((f.fn->name + "() local").c_str());
        f.regs[I.dst] = CV(newStackObj(s, I.imm * c, nm));
        f.pc++; return NEXT; }
    case O_BR: takeEdge(f, I.b); return JUMPED;
    case O_CBR: {
        Val &c = get(f, I.a);
        if (!c.e) { takeEdge(f, c.c & 1 ? I.b : I.c); return JUMPED; }
        E e = c.e;
        ModelP mT, mF;
        int d = decide(s, e, mT, mF);
        if (d != 2) { takeEdge(f, d ? I.b : I.c); return JUMPED; }
        State *o = cloneState(s);
        o->model = mF; addCons(*o, P.not1(e));
        takeEdge(o->fr.back(), I.c);
        work.push_back(o);
        s.model = mT; addCons(s, e);
        takeEdge(f, I.b);
        return JUMPED; }
    case O_SWITCH: {
        Val &v = get(f, I.a);
        SwitchInfo &si = f.fn->switches[I.ext];
        if (!v.e) {
            for (auto &c : si.cases) if (c.first == v.c) { takeEdge(f, c.second); return JUMPED; }
            takeEdge(f, si.def); return JUMPED;
        }
        // one condition per distinct target
        E e = v.e;
        vector<std::pair<int, E>> conds;
        E any = P.F();
        for (auto &c : si.cases) {
            E q = P.bin(K_EQ, e, P.C(I.w, c.first));
            any = P.bin(K_OR, any, q);
            bool found = false;
            for (auto &p : conds) if (p.first == c.second) { p.second = P.bin(K_OR, p.second, q); found = true; break; }
            if (!found) conds.push_back({c.second, q});
        }
        conds.push_back({si.def, P.not1(any)});
        P.beginEval(*s.model);
        int mine = -1;
        for (size_t i = 0; i < conds.size(); i++) if (P.eval(conds[i].second)) { mine = i; break; }
        ModelP m0 = s.model;
        bool forked = false;
        for (size_t i = 0; i < conds.size(); i++) {
            if ((int)i == mine) continue;
            ModelP m;
            if (conds[i].second->k == K_CONST && !conds[i].second->val) continue;
            int r = solve(s, conds[i].second, m);
            if (r != 1) continue;
            State *o = cloneState(s);
            o->model = m; addCons(*o, conds[i].second);
            takeEdge(o->fr.back(), conds[i].first);
            work.push_back(o);
            forked = true;
        }
        s.model = m0;
        if (forked) addCons(s, conds[mine].second);
        takeEdge(f, conds[mine].first);
        return JUMPED; }
    case O_RET: {
        Val v = get(f, I.a);
        int rr = f.retReg;
        if (s.fr.size() == 1) return endPath(s);
        vector<Val> rest;
        for (int k = 1; k < I.imm; k++) rest.push_back(get(f, I.a + k));
        popFrame(s);
        if (rr >= 0) {
            s.fr.back().regs[rr] = v;
            for (size_t k = 0; k < rest.size(); k++) s.fr.back().regs[rr + 1 + k] = rest[k];
        }
        return JUMPED; }
    case O_CALL: {
        R r = doCall(s, f, I);
        if (r == NEXT) s.fr.back().pc++;
        return r; }
    case O_UNREACHABLE: return memError(s, "unreachable code reached (undefined behaviour)");
    case O_UNSUP: incomplete = "unsupported instruction: " + f.fn->unsup[I.ext] + " in " + f.fn->name; return DEAD;
    }
    return DEAD;
}

// ------------------------------------------------------------------ output
static string jstr(const string &s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static string jinputs(const vector<std::pair<string, uint64_t>> &v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); i++) { char b[64]; snprintf(b, sizeof b, ",%llu]", (unsigned long long)v[i].second); r += (i ? ",[" : "[") + jstr(v[i].first) + b; }
    return r + "]";
}
static string outFile;
static void writeResult() {
    FILE *o = fopen(outFile.c_str(), "w");
    if (!o) { perror(outFile.c_str()); exit(3); }
    fprintf(o, "{\n\"paths\":%llu,\"pruned\":%llu,\"error_paths\":%llu,\"states\":%llu,\"forks\":%llu,\"instructions\":%llu,\n",
            (unsigned long long)ST.pathsDone, (unsigned long long)ST.pathsPruned, (unsigned long long)ST.pathsErr, (unsigned long long)ST.states, (unsigned long long)ST.forks, (unsigned long long)ST.insts);
    fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\n",
            (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unknown, (unsigned long long)ST.cacheHits, (unsigned long long)ST.modelHits, ST.solverTime, ST.maxQuery, now() - T0);
    fprintf(o, "\"checks\":%llu,\"symbolic_checks\":%llu,\n", (unsigned long long)ST.checks, (unsigned long long)ST.checkQueries);
    fprintf(o, "\"incomplete\":%s,\n", incomplete.empty() ? "null" : jstr(incomplete).c_str());
    fprintf(o, "\"check_stats\":{");
    bool first = true;
    for (auto &p : checkStats) { fprintf(o, "%s%s:[%llu,%llu]", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second.evaluated, (unsigned long long)p.second.symbolic); first = false; }
    fprintf(o, "},\n\"witnesses\":{");
    first = true;
    for (auto &p : witnesses) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (Fn *f : fns) if (f->translated && f->mod != (int)mods.size() - 1) {
        int h = 0; for (auto x : f->blockHit) h += x;
        fprintf(o, "%s[%s,%d,%d]", first ? "" : ",", jstr(f->name).c_str(), h, (int)f->blockHit.size()); first = false;
    }
    fprintf(o, "],\n\"violations\":[");
    for (size_t i = 0; i < violations.size(); i++) {
        auto &v = violations[i];
        fprintf(o, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"inputs\":%s}", i ? ",\n" : "", jstr(v.kind).c_str(), jstr(v.label).c_str(), jstr(v.where).c_str(), jinputs(v.inputs).c_str());
    }
    fprintf(o, "],\n\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? ",\n" : "", jinputs(samples[i]).c_str());
    fprintf(o, "]\n}\n");
    fclose(o);
}

static int argcG; static char **argvG;
static void *mainThread(void *) {
    vector<string> progs; string rt;
    for (int i = 1; i < argcG; i++) {
        string a = argvG[i];
        auto nx = [&]() -> string { if (i + 1 >= argcG) { fprintf(stderr, "symx: missing value for %s\n", a.c_str()); exit(3); } return argvG[++i]; };
        if (a == "--prog") progs.push_back(nx());
        else if (a == "--rt") rt = nx();
        else if (a == "--out") outFile = nx();
        else if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--after") optAfter = atof(nx().c_str());      // seconds to go on after the first violation
        else if (a == "--stop") optStop = nx();                       // stop as soon as this file exists
        else if (a == "--steps") optSteps = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--samples") optSamples = atoi(nx().c_str());
        else if (a == "--solver-ms") optSolverMs = atoi(nx().c_str());
        else if (a == "--seed") optSeed = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--debug") optDebug = true;
        else if (a == "--param") { string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = e == string::npos ? "1" : p.substr(e + 1); }
        else { fprintf(stderr, "symx: unknown option %s\n", a.c_str()); exit(3); }
    }
    for (uint64_t i = 0; i < optSeed % 97; i++) rng();
    T0 = now();
    LLVMContext *ctx = new LLVMContext();
    progs.push_back(rt);
    loadModules(progs, *ctx);
    P.initZ3();
    Z = Z3_mk_simple_solver(P.z3);
    Z3_solver_inc_ref(P.z3, Z);
    Z3_params zp = Z3_mk_params(P.z3);
    Z3_params_inc_ref(P.z3, zp);
    Z3_params_set_uint(P.z3, zp, Z3_mk_string_symbol(P.z3, "timeout"), 1500);
    Z3_solver_set_params(P.z3, Z, zp);

    State *s0 = new State();
    for (auto &p : globalInit) s0->glob.v.push_back(p.first);
    std::sort(s0->glob.v.begin(), s0->glob.v.end(), [](const ObjP &a, const ObjP &b) { return a.p->base < b.p->base; });
    s0->model = std::make_shared<vector<uint64_t>>();
    Fn *m = fnByName["harness"];
    if (!m) { fprintf(stderr, "symx: no harness()\n"); exit(3); }
    pushFrame(*s0, m, {}, -1, 0);
    work.push_back(s0);
    uint64_t tick = 0;
    bool stop = false;
    while (!work.empty() && !stop) {
        cur = work.back(); work.pop_back();
        State &s = *cur;
        for (;;) {
            R r = step(s);
            if (r == DEAD) break;
            if ((++tick & 0x3fff) == 0) {
                if (firstViol && now() - firstViol > optAfter) { if (incomplete.empty()) incomplete = "stopped after a violation"; stop = true; break; }
                if ((tick & 0xfffff) == 0 && !optStop.empty() && access(optStop.c_str(), F_OK) == 0) { if (incomplete.empty()) incomplete = "stopped after a violation"; stop = true; break; }
                if (now() - T0 > optTime) { if (incomplete.empty()) incomplete = "time limit"; stop = true; break; }
            }
            if (s.steps > optSteps) { report(s, s.model, "hang", "no termination within the instruction bound"); ST.pathsErr++; break; }
        }
        delete cur;
        if (ST.pathsDone + ST.pathsErr > optMaxPaths) { if (incomplete.empty()) incomplete = "path limit"; break; }
        if (violations.size() > 40) { break; }
    }
    writeResult();
    fflush(nullptr);
    _exit(0);
    return nullptr;
}
int main(int argc, char **argv) {
    argcG = argc; argvG = argv;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1024ull << 20);
    pthread_t t;
    if (pthread_create(&t, &at, mainThread, nullptr)) { mainThread(nullptr); }
    pthread_join(t, nullptr);
    return 0;
}
