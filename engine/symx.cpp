// symx: bounded symbolic execution of LLVM IR (clang 18 bitcode) for the cpp-sort checks.
// Every path is executed on concrete values of one model with a symbolic shadow; each branch on a
// symbolic condition is decided by the solver for both sides, each assertion is discharged for all
// values satisfying the path condition.
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ memory
static const u64 BASE = 0x10000000000ULL, RSIZE = 1ULL << 30;
static const u64 GLOB0 = BASE + (1 << 20), GLOB_END = BASE + (64ULL << 20), STK0 = GLOB_END, STK_END = BASE + (192ULL << 20), HEAP0 = STK_END, HEAP_END = BASE + RSIZE;
enum { F_ADDR = 1, F_INIT = 2, F_SYM = 4, F_RO = 8 };
static u8* FL; static u64* SH;     // flags / symbolic shadow, indexed by addr-BASE
static inline u8& flg(u64 a) { return FL[a - BASE]; }
static inline u64& shd(u64 a) { return SH[a - BASE]; }

struct Val { u64 c, h; Expr* e; };

// ------------------------------------------------------------------ path control
enum EndKind { END_OK, END_ASSUME, END_VIOL, END_LIMIT, END_INTERNAL };
struct PathEnd { EndKind k; std::string msg; };

struct Job { u32 task, bound; u8 expect; std::vector<u64> excl; std::vector<u8> model; };

// ------------------------------------------------------------------ decoded code
enum Opc : u8 {
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
    O_FCMP, O_FBIN, O_FNEG, O_ZEXT, O_SEXT, O_TRUNC, O_MOVE, O_FPCAST,
    O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_SELECT,
    O_COPYN, O_INSERT, O_LPAD, O_RESUME, O_RMW, O_CMPXCHG, O_UNSUP
};
struct Edge { u32 pc; u32 cp0, cpn; bool overlap; };
struct Leaf { u64 off; u16 w; };
struct GepTerm { int op; u16 w; i64 scale; };
struct CallInfo {
    Function* fn = nullptr; int indirect = 0; bool isInd = false; std::vector<std::pair<int, int>> args; std::vector<u64> byval;
    int builtin = -1; Intrinsic::ID iid = Intrinsic::not_intrinsic; int nret = 0; int normal = -1, unwind = -1; u16 retw = 0; u16 argw = 0;
};
struct Inst { Opc op; u8 pred; u16 w, w2; int dst, a, b, c; u32 x; const Instruction* I; };

struct FuncInfo {
    Function* F; bool decoded = false; u64 addr; int nregs = 0, nargs = 0;
    std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<std::pair<int, int>> copies;
    std::vector<std::vector<Leaf>> leaves; std::vector<std::vector<GepTerm>> geps; std::vector<CallInfo> calls;
    std::vector<std::vector<std::pair<u128, u32>>> switches;
    std::vector<u8> cov;
};

struct Mod {
    std::string path; std::unique_ptr<LLVMContext> ctx; std::unique_ptr<Module> M; const DataLayout* DL;
    std::unordered_map<const Function*, FuncInfo*> fi; std::unordered_map<u64, FuncInfo*> byAddr;
    std::unordered_map<const GlobalVariable*, u64> gaddr; u64 gtop = 0; std::vector<u8> img, fimg; std::vector<std::pair<u64, Expr*>> dummy;
    std::map<u64, int> typeIds; std::map<u64, std::string> addrName; u64 siVt = 0, badAllocTi = 0, excTi = 0;
    std::vector<Function*> ctors;
};

enum BI { B_NONE = -1, B_SYM_BYTES, B_ASSUME, B_ASSERT, B_FAIL, B_OBS, B_COUNT, B_NATIVE, B_MALLOC, B_FREE, B_LIVE, B_CONC, B_FORK, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW,
    B_BEGIN_CATCH, B_END_CATCH, B_RETHROW, B_TERM, B_ABORT, B_NOP, B_GUARD_ACQ, B_GUARD_REL, B_ASSERTFAIL, B_STDTHROW, B_LOG, B_SQRT, B_TIME, B_STEPS, B_GETEXC, B_AND, B_UNCAUGHT, B_POISON, B_LOG10, B_LN, B_DEPTH, B_PERM, B_MEMCMP, B_STRLEN, B_EAGER, B_ORDER, B_LOC0, B_LOCC, B_LOC1 };
static const std::map<std::string, int>& builtins() {
    static const std::map<std::string, int> m = {
        {"sym_bytes", B_SYM_BYTES}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_fail", B_FAIL}, {"sym_observe", B_OBS}, {"sym_count", B_COUNT},
        {"sym_native", B_NATIVE}, {"sym_malloc", B_MALLOC}, {"sym_free", B_FREE}, {"sym_live", B_LIVE}, {"sym_concretize", B_CONC}, {"sym_fork", B_FORK},
        {"sym_steps", B_STEPS}, {"sym_depth", B_DEPTH}, {"sym_poison", B_POISON}, {"sym_perm", B_PERM}, {"sym_eager", B_EAGER}, {"sym_order", B_ORDER}, {"_ZNSt6localeC1Ev", B_LOC0}, {"_ZNSt6localeC2Ev", B_LOC0}, {"_ZNSt6localeC1ERKS_", B_LOCC}, {"_ZNSt6localeC2ERKS_", B_LOCC}, {"_ZNSt6localeaSERKS_", B_LOCC}, {"vrt_other_locale", B_LOC1}, {"_ZNSt6localeD1Ev", B_NOP}, {"_ZNSt6localeD2Ev", B_NOP}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_BEGIN_CATCH},
        {"__cxa_end_catch", B_END_CATCH}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_get_exception_ptr", B_GETEXC}, {"_ZSt9terminatev", B_TERM}, {"abort", B_ABORT}, {"__cxa_pure_virtual", B_ABORT},
        {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT},
        {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_NOP}, {"__assert_fail", B_ASSERTFAIL},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL},
        {"_ZNSt9bad_allocD1Ev", B_NOP}, {"_ZNSt9bad_allocD2Ev", B_NOP}, {"_ZNSt9exceptionD1Ev", B_NOP}, {"_ZNSt9exceptionD2Ev", B_NOP},
        {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"_ZSt17__throw_bad_allocv", B_STDTHROW},
        {"_ZSt28__throw_bad_array_new_lengthv", B_STDTHROW}, {"_ZSt20__throw_length_errorPKc", B_STDTHROW}, {"_ZSt19__throw_logic_errorPKc", B_STDTHROW},
        {"_ZSt24__throw_out_of_range_fmtPKcz", B_STDTHROW}, {"_ZSt20__throw_out_of_rangePKc", B_STDTHROW}, {"_ZSt25__throw_bad_function_callv", B_STDTHROW}, {"_ZSt16__throw_bad_castv", B_STDTHROW},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", B_TIME}, {"log2", B_LOG}, {"sqrt", B_SQRT}, {"log10", B_LOG10}, {"log", B_LN},
    };
    return m;
}

static int nslots(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) { int n = 0; for (Type* e : S->elements()) n += nslots(e); return n; }
    if (auto* A = dyn_cast<ArrayType>(T)) return (int)A->getNumElements() * nslots(A->getElementType());
    if (auto* V = dyn_cast<FixedVectorType>(T)) return (int)V->getNumElements();
    if (T->isVoidTy()) return 0;
    return 1;
}
static void leavesOf(const DataLayout& DL, Type* T, u64 off, std::vector<Leaf>& out) {
    if (auto* S = dyn_cast<StructType>(T)) { const StructLayout* L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) leavesOf(DL, S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { u64 s = DL.getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); ++i) leavesOf(DL, A->getElementType(), off + i * s, out); return; }
    if (auto* V = dyn_cast<FixedVectorType>(T)) { u64 s = DL.getTypeSizeInBits(V->getElementType()) / 8; for (u64 i = 0; i < V->getNumElements(); ++i) out.push_back({off + i * s, (u16)DL.getTypeSizeInBits(V->getElementType())}); return; }
    out.push_back({off, (u16)DL.getTypeSizeInBits(T)});
}
static int slotOff(Type* T, ArrayRef<unsigned> idx, Type** out) {
    int o = 0;
    for (unsigned i : idx) {
        if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) o += nslots(S->getElementType(j)); T = S->getElementType(i); }
        else { auto* A = cast<ArrayType>(T); o += i * nslots(A->getElementType()); T = A->getElementType(); }
    }
    *out = T; return o;
}

// ------------------------------------------------------------------ module loading
struct Loader {
    Mod& m; explicit Loader(Mod& mm) : m(mm) {}
    u64 fnAddr(const Function* F) {
        auto it = m.fi.find(F); if (it != m.fi.end()) return it->second->addr;
        FuncInfo* f = new FuncInfo; f->F = const_cast<Function*>(F); f->addr = BASE + 64 + 16 * (m.fi.size() + 1);
        m.fi[F] = f; m.byAddr[f->addr] = f; m.addrName[f->addr] = F->getName().str(); return f->addr;
    }
    void constSlots(const Constant* C, std::vector<Val>& out) {
        Type* T = C->getType();
        if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
            unsigned n = T->isStructTy() ? cast<StructType>(T)->getNumElements() : T->isArrayTy() ? (unsigned)cast<ArrayType>(T)->getNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; ++i) {
                Constant* e = C->getAggregateElement(i);
                if (!e) { fprintf(stderr, "aggregate constant?\n"); exit(2); }
                constSlots(e, out);
            }
            return;
        }
        u128 v = scalar(C); out.push_back({(u64)v, (u64)(v >> 64), nullptr});
    }
    u128 scalar(const Constant* C) {
        if (auto* I = dyn_cast<ConstantInt>(C)) { const APInt& a = I->getValue(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v & maskw(a.getBitWidth()); }
        if (auto* F = dyn_cast<ConstantFP>(C)) { APInt a = F->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
        if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
        if (auto* G = dyn_cast<GlobalVariable>(C)) return m.gaddr.at(G);
        if (auto* F = dyn_cast<Function>(C)) return fnAddr(F);
        if (auto* A = dyn_cast<GlobalAlias>(C)) return scalar(A->getAliasee());
        if (auto* E = dyn_cast<ConstantExpr>(C)) {
            switch (E->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* G = cast<GEPOperator>(E); APInt off(64, 0);
                if (!G->accumulateConstantOffset(*m.DL, off)) { fprintf(stderr, "constant gep\n"); exit(2); }
                return (u64)((u64)scalar(E->getOperand(0)) + off.getSExtValue());
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return scalar(E->getOperand(0)) & maskw((unsigned)m.DL->getTypeSizeInBits(E->getType()));
            case Instruction::Trunc: return scalar(E->getOperand(0)) & maskw((unsigned)m.DL->getTypeSizeInBits(E->getType()));
            case Instruction::Add: return (scalar(E->getOperand(0)) + scalar(E->getOperand(1))) & maskw((unsigned)m.DL->getTypeSizeInBits(E->getType()));
            case Instruction::Sub: return (scalar(E->getOperand(0)) - scalar(E->getOperand(1))) & maskw((unsigned)m.DL->getTypeSizeInBits(E->getType()));
            default: break;
            }
        }
        std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "constant not handled: %s\n", s.c_str()); exit(2);
    }
    void load(const std::string& path) {
        m.path = path; m.ctx = std::make_unique<LLVMContext>(); SMDiagnostic err;
        m.M = parseIRFile(path, err, *m.ctx);
        if (!m.M) { fprintf(stderr, "cannot read %s: %s\n", path.c_str(), err.getMessage().str().c_str()); exit(2); }
        m.DL = &m.M->getDataLayout();
        for (Function& F : *m.M) fnAddr(&F);
        u64 p = GLOB0 + 64;
        std::vector<std::pair<const GlobalVariable*, u64>> gs;
        for (GlobalVariable& G : m.M->globals()) {
            u64 sz = G.getValueType()->isSized() ? (u64)m.DL->getTypeAllocSize(G.getValueType()) : 64;
            if (G.isDeclaration() && sz < 64) sz = 64;
            u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
            p = (p + al - 1) / al * al; m.gaddr[&G] = p; gs.push_back({&G, sz}); m.addrName[p] = G.getName().str();
            if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") m.siVt = p + 16;
            if (G.getName() == "_ZTISt9bad_alloc") m.badAllocTi = p;
            if (G.getName() == "_ZTISt9exception") m.excTi = p;
            p += sz + 48;
        }
        m.gtop = p; if (p > GLOB_END) { fprintf(stderr, "globals too big\n"); exit(2); }
        m.img.assign(p - GLOB0, 0); m.fimg.assign(p - GLOB0, 0);
        for (auto& [G, sz] : gs) {
            u64 a = m.gaddr[G]; bool ro = G->isConstant();
            for (u64 i = 0; i < sz; ++i) m.fimg[a - GLOB0 + i] = F_ADDR | F_INIT | (ro ? F_RO : 0);
            if (G->hasInitializer() && G->getName() != "llvm.global_ctors" && G->getName() != "llvm.used" && G->getName() != "llvm.compiler.used") {
                std::vector<Leaf> lv; leavesOf(*m.DL, G->getValueType(), 0, lv); std::vector<Val> vs; 
                if (isa<ConstantAggregateZero>(G->getInitializer())) continue;
                constSlots(G->getInitializer(), vs);
                for (size_t i = 0; i < lv.size(); ++i) { u128 v = ((u128)vs[i].h << 64) | vs[i].c; memcpy(&m.img[a - GLOB0 + lv[i].off], &v, (lv[i].w + 7) / 8); }
            }
        }
        if (auto* G = m.M->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1))) m.ctors.push_back(F); }
    }

    // -------- function decoding
    FuncInfo* f; std::unordered_map<const Value*, int> regOf; std::unordered_map<const Value*, int> constOf; std::unordered_map<const BasicBlock*, u32> pcOf;
    int opnd(const Value* v) {
        auto it = regOf.find(v); if (it != regOf.end()) return it->second;
        auto* C = dyn_cast<Constant>(v);
        if (!C) { if (isa<MetadataAsValue>(v)) return 0; fprintf(stderr, "operand?\n"); exit(2); }
        auto ct = constOf.find(v); if (ct != constOf.end()) return ct->second;
        int id = ~(int)f->consts.size(); constSlots(C, f->consts); constOf[v] = id; return id;
    }
    // NB: consecutive constant slots are at ~(k), ~(k+1)...: index via slotAt
    static int slotAt(int o, int i) { return o >= 0 ? o + i : o - i; }
    u32 edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.pc = pcOf.at(to); e.cp0 = (u32)f->copies.size(); std::set<int> dsts; e.overlap = false;
        for (const PHINode& P : to->phis()) {
            int d = regOf.at(&P); const Value* in = P.getIncomingValueForBlock(from); int n = nslots(P.getType());
            if (isa<UndefValue>(in) && !isa<PoisonValue>(in)) { /* leave as is: treated as 0 */ }
            int s = opnd(in);
            for (int i = 0; i < n; ++i) { int sv = slotAt(s, i); if (sv >= 0 && dsts.count(sv)) e.overlap = true; if (sv != d + i) f->copies.push_back({d + i, sv}); dsts.insert(d + i); }
        }
        e.cpn = (u32)f->copies.size() - e.cp0; f->edges.push_back(e); return (u32)f->edges.size() - 1;
    }
    u16 tw(Type* T) { return (u16)m.DL->getTypeSizeInBits(T); }
    void decode(FuncInfo* fi) {
        f = fi; fi->decoded = true; regOf.clear(); constOf.clear(); pcOf.clear(); Function* F = fi->F; int r = 0;
        for (Argument& A : F->args()) { regOf[&A] = r; r += std::max(1, nslots(A.getType())); }
        fi->nargs = r; u32 pc = 0;
        for (BasicBlock& B : *F) {
            pcOf[&B] = pc;
            for (Instruction& I : B) {
                if (!I.getType()->isVoidTy()) { regOf[&I] = r; r += std::max(1, nslots(I.getType())); }
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                ++pc;
            }
        }
        fi->nregs = r;
        for (BasicBlock& B : *F) for (Instruction& I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Inst d{}; d.I = &I; d.dst = I.getType()->isVoidTy() ? -1 : regOf[&I]; d.op = O_UNSUP;
            decodeInst(B, I, d); fi->code.push_back(d);
        }
        fi->cov.assign(fi->code.size(), 0);
        for (size_t i = 0; i < fi->code.size(); ++i) { auto& ins = fi->code[i]; (void)ins; }
    }
    void decodeInst(BasicBlock& B, Instruction& I, Inst& d) {
        bool vec = I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
        if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallBase>(I) && !isa<ReturnInst>(I)) {
            if (isa<FreezeInst>(I)) { d.op = O_COPYN; d.a = opnd(I.getOperand(0)); d.x = nslots(I.getType()); }
            return;
        }
        switch (I.getOpcode()) {
        case Instruction::Add: d.op = O_ADD; goto bin; case Instruction::Sub: d.op = O_SUB; goto bin; case Instruction::Mul: d.op = O_MUL; goto bin;
        case Instruction::UDiv: d.op = O_UDIV; goto bin; case Instruction::SDiv: d.op = O_SDIV; goto bin; case Instruction::URem: d.op = O_UREM; goto bin;
        case Instruction::SRem: d.op = O_SREM; goto bin; case Instruction::Shl: d.op = O_SHL; goto bin; case Instruction::LShr: d.op = O_LSHR; goto bin;
        case Instruction::AShr: d.op = O_ASHR; goto bin; case Instruction::And: d.op = O_AND; goto bin; case Instruction::Or: d.op = O_OR; goto bin;
        case Instruction::Xor: d.op = O_XOR; goto bin;
        bin: d.w = tw(I.getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); if (d.w > 128) d.op = O_UNSUP; break;
        case Instruction::ICmp: {
            switch (cast<ICmpInst>(I).getPredicate()) {
            case CmpInst::ICMP_EQ: d.op = O_EQ; break; case CmpInst::ICMP_NE: d.op = O_NE; break; case CmpInst::ICMP_ULT: d.op = O_ULT; break; case CmpInst::ICMP_ULE: d.op = O_ULE; break;
            case CmpInst::ICMP_UGT: d.op = O_UGT; break; case CmpInst::ICMP_UGE: d.op = O_UGE; break; case CmpInst::ICMP_SLT: d.op = O_SLT; break; case CmpInst::ICMP_SLE: d.op = O_SLE; break;
            case CmpInst::ICMP_SGT: d.op = O_SGT; break; default: d.op = O_SGE; break;
            }
            d.w = tw(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
        }
        case Instruction::FCmp: d.op = O_FCMP; d.pred = cast<FCmpInst>(I).getPredicate(); d.w = tw(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); if (d.w > 64) d.op = O_UNSUP; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            d.op = O_FBIN; d.pred = (u8)I.getOpcode(); d.w = tw(I.getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); if (d.w > 64) d.op = O_UNSUP; break;
        case Instruction::FNeg: d.op = O_FNEG; d.w = tw(I.getType()); d.a = opnd(I.getOperand(0)); if (d.w > 64) d.op = O_UNSUP; break;
        case Instruction::ZExt: d.op = O_ZEXT; goto cast_; case Instruction::SExt: d.op = O_SEXT; goto cast_; case Instruction::Trunc: d.op = O_TRUNC; goto cast_;
        case Instruction::PtrToInt: d.op = tw(I.getType()) < 64 ? O_TRUNC : tw(I.getType()) > 64 ? O_ZEXT : O_MOVE; goto cast_;
        case Instruction::IntToPtr: d.op = tw(I.getOperand(0)->getType()) < 64 ? O_ZEXT : tw(I.getOperand(0)->getType()) > 64 ? O_TRUNC : O_MOVE; goto cast_;
        case Instruction::BitCast: case Instruction::Freeze: if (nslots(I.getType()) > 1) { d.op = O_COPYN; d.a = opnd(I.getOperand(0)); d.x = nslots(I.getType()); break; } d.op = O_MOVE; goto cast_;
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
            d.op = O_FPCAST; d.pred = (u8)I.getOpcode(); goto cast_;
        cast_: d.w = tw(I.getType()); d.w2 = tw(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0));
            if (d.op == O_FPCAST && ((d.w > 64) || (d.w2 > 64))) d.op = O_UNSUP; break;
        case Instruction::Load: { std::vector<Leaf> lv; leavesOf(*m.DL, I.getType(), 0, lv); d.op = O_LOAD; d.a = opnd(I.getOperand(0)); d.w = lv.size() == 1 ? lv[0].w : 0; if (lv.size() != 1) { d.x = (u32)f->leaves.size(); f->leaves.push_back(lv); } break; }
        case Instruction::Store: { std::vector<Leaf> lv; leavesOf(*m.DL, I.getOperand(0)->getType(), 0, lv); d.op = O_STORE; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.w = lv.size() == 1 ? lv[0].w : 0; if (lv.size() != 1) { d.x = (u32)f->leaves.size(); f->leaves.push_back(lv); } break; }
        case Instruction::GetElementPtr: {
            auto& G = cast<GetElementPtrInst>(I); i64 off = 0; std::vector<GepTerm> ts;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                Value* ix = it.getOperand();
                if (StructType* S = it.getStructTypeOrNull()) { off += m.DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                i64 sc = (i64)it.getSequentialElementStride(*m.DL);
                if (auto* C = dyn_cast<ConstantInt>(ix)) off += sc * C->getSExtValue(); else ts.push_back({opnd(ix), tw(ix->getType()), sc});
            }
            d.op = O_GEP; d.a = opnd(G.getPointerOperand()); d.x = (u32)f->geps.size(); f->geps.push_back(ts);
            f->consts.push_back({(u64)off, 0, nullptr}); d.b = ~(int)(f->consts.size() - 1); d.w2 = (u16)ts.size();
            break;
        }
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); d.op = O_ALLOCA; u64 sz = m.DL->getTypeAllocSize(A.getAllocatedType()); f->consts.push_back({sz, std::max<u64>(16, A.getAlign().value()), nullptr}); d.b = ~(int)(f->consts.size() - 1); d.a = opnd(A.getArraySize()); break; }
        case Instruction::Br: {
            auto& Br = cast<BranchInst>(I);
            if (Br.isUnconditional()) { d.op = O_BR; d.x = edge(&B, Br.getSuccessor(0)); }
            else { d.op = O_CBR; d.a = opnd(Br.getCondition()); d.x = edge(&B, Br.getSuccessor(0)); d.b = (int)edge(&B, Br.getSuccessor(1)); }
            break;
        }
        case Instruction::Switch: {
            auto& S = cast<SwitchInst>(I); d.op = O_SWITCH; d.a = opnd(S.getCondition()); d.w = tw(S.getCondition()->getType()); std::vector<std::pair<u128, u32>> v;
            for (auto& c : S.cases()) v.push_back({scalar(c.getCaseValue()), edge(&B, c.getCaseSuccessor())});
            d.b = (int)edge(&B, S.getDefaultDest()); d.x = (u32)f->switches.size(); f->switches.push_back(v); break;
        }
        case Instruction::Ret: d.op = O_RET; if (auto* V = cast<ReturnInst>(I).getReturnValue()) { d.a = opnd(V); d.x = nslots(V->getType()); } else d.x = 0; break;
        case Instruction::Unreachable: d.op = O_UNREACH; break;
        case Instruction::Select: d.op = O_SELECT; if (I.getOperand(0)->getType()->isVectorTy()) { d.op = O_UNSUP; break; } d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.x = nslots(I.getType()); d.w = d.x == 1 ? tw(I.getType()) : 0; d.pred = I.getType()->isPointerTy(); break;
        case Instruction::ExtractValue: { Type* T; auto& E = cast<ExtractValueInst>(I); int o = slotOff(E.getAggregateOperand()->getType(), E.getIndices(), &T); d.op = O_COPYN; d.a = slotAt(opnd(E.getAggregateOperand()), o); d.x = nslots(T); break; }
        case Instruction::InsertValue: { Type* T; auto& E = cast<InsertValueInst>(I); int o = slotOff(E.getType(), E.getIndices(), &T); d.op = O_INSERT; d.a = opnd(E.getAggregateOperand()); d.b = opnd(E.getInsertedValueOperand()); d.x = nslots(E.getType()); d.c = o; d.w2 = (u16)nslots(T); break; }
        case Instruction::LandingPad: d.op = O_LPAD; break;
        case Instruction::Resume: d.op = O_RESUME; d.a = opnd(I.getOperand(0)); break;
        case Instruction::Fence: d.op = O_COPYN; d.x = 0; d.a = 0; d.dst = 0; break;
        case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); d.op = O_RMW; d.pred = (u8)A.getOperation(); d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getValOperand()); d.w = tw(I.getType()); break; }
        case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I); CallInfo ci; ci.nret = nslots(I.getType());
            if (ci.nret == 1) ci.retw = tw(I.getType());
            Function* cf = C.getCalledFunction(); if (!cf) if (auto* A = dyn_cast<GlobalAlias>(C.getCalledOperand())) cf = dyn_cast<Function>(A->getAliaseeObject());
            if (cf) { ci.fn = cf; ci.iid = cf->getIntrinsicID(); if (cf->isDeclaration() && ci.iid == Intrinsic::not_intrinsic) { auto it = builtins().find(cf->getName().str()); if (it != builtins().end()) ci.builtin = it->second; } }
            else if (C.isInlineAsm()) { ci.builtin = B_NOP; }
            else { ci.isInd = true; ci.indirect = opnd(C.getCalledOperand()); }
            for (unsigned i = 0; i < C.arg_size(); ++i) {
                Value* A = C.getArgOperand(i); if (A->getType()->isMetadataTy()) continue;
                ci.args.push_back({opnd(A), std::max(1, nslots(A->getType()))});
                ci.byval.push_back(C.isByValArgument(i) ? (u64)m.DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
                if (i == 0 && A->getType()->isSized()) ci.argw = tw(A->getType());
            }
            if (auto* V = dyn_cast<InvokeInst>(&I)) { ci.normal = (int)edge(&B, V->getNormalDest()); ci.unwind = (int)edge(&B, V->getUnwindDest()); }
            d.op = O_CALL; d.x = (u32)f->calls.size(); d.w = ci.retw; f->calls.push_back(ci); break;
        }
        default: break;
        }
    }
};

// ------------------------------------------------------------------ tasks
struct Task { int mod; std::string entry; std::vector<i64> args; std::string name; u64 stepLimit; int gates; };
struct Viol { u32 task; std::string msg; std::vector<u8> model; };
struct Sample { u32 task; std::vector<u8> model; u64 obs; u32 nobs; };
struct Stats { u64 paths = 0, assumed = 0, events = 0, asserts = 0, queries = 0, steps = 0, unknown = 0, infeasible = 0, xchk = 0, maxSteps = 0, asserted_paths = 0; double tsolve = 0; u64 counts[8] = {0}; };

static std::vector<Task> tasks; static std::vector<std::string> modPaths; static std::vector<std::unique_ptr<Mod>> mods;
static i64 confBudget = -1; static int xchkEvery = 2000; static int sampleMax = 4; static bool verbose = false;

// ------------------------------------------------------------------ z3 cross check
static z3::expr toZ3(z3::context& c, Expr* root, std::unordered_map<Expr*, z3::expr>& memo) {
    std::vector<Expr*> st{root};
    auto B = [&](z3::expr b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); };
    while (!st.empty()) {
        Expr* e = st.back(); if (memo.count(e)) { st.pop_back(); continue; }
        bool rdy = true; for (Expr* x : {e->a, e->b, e->c}) if (x && !memo.count(x)) { st.push_back(x); rdy = false; }
        if (!rdy) continue; st.pop_back();
        auto get = [&](Expr* x) { return memo.at(x); };
        auto flt = [&](Expr* x) { return x->w == 32 ? z3::expr(c, Z3_mk_fpa_to_fp_bv(c, get(x), Z3_mk_fpa_sort_32(c))) : z3::expr(c, Z3_mk_fpa_to_fp_bv(c, get(x), Z3_mk_fpa_sort_64(c))); };
        z3::expr r(c);
        switch (e->op) {
        case E_CONST: { r = e->w <= 64 ? c.bv_val((uint64_t)e->k, e->w) : z3::concat(c.bv_val((uint64_t)(e->k >> 64), e->w - 64), c.bv_val((uint64_t)e->k, 64)); break; }
        case E_VAR: r = c.bv_const(("v" + std::to_string((u64)e->k)).c_str(), 8); break;
        case E_EXTRACT: r = get(e->a).extract((unsigned)e->k + e->w - 1, (unsigned)e->k); break;
        case E_CONCAT: r = z3::concat(get(e->a), get(e->b)); break;
        case E_ZEXT: r = z3::zext(get(e->a), e->w - e->a->w); break;
        case E_SEXT: r = z3::sext(get(e->a), e->w - e->a->w); break;
        case E_ADD: r = get(e->a) + get(e->b); break; case E_SUB: r = get(e->a) - get(e->b); break; case E_MUL: r = get(e->a) * get(e->b); break;
        case E_UDIV: r = z3::udiv(get(e->a), get(e->b)); break; case E_SDIV: r = get(e->a) / get(e->b); break;
        case E_UREM: r = z3::urem(get(e->a), get(e->b)); break; case E_SREM: r = z3::srem(get(e->a), get(e->b)); break;
        case E_AND: r = get(e->a) & get(e->b); break; case E_OR: r = get(e->a) | get(e->b); break; case E_XOR: r = get(e->a) ^ get(e->b); break;
        case E_SHL: r = z3::shl(get(e->a), get(e->b)); break; case E_LSHR: r = z3::lshr(get(e->a), get(e->b)); break; case E_ASHR: r = z3::ashr(get(e->a), get(e->b)); break;
        case E_EQ: r = B(get(e->a) == get(e->b)); break; case E_ULT: r = B(z3::ult(get(e->a), get(e->b))); break; case E_SLT: r = B(z3::slt(get(e->a), get(e->b))); break;
        case E_ITE: r = z3::ite(get(e->a) == c.bv_val(1, 1), get(e->b), get(e->c)); break;
        case E_FEQ: r = B(z3::expr(c, Z3_mk_fpa_eq(c, flt(e->a), flt(e->b)))); break;
        case E_FLT: r = B(z3::expr(c, Z3_mk_fpa_lt(c, flt(e->a), flt(e->b)))); break;
        case E_FLE: r = B(z3::expr(c, Z3_mk_fpa_leq(c, flt(e->a), flt(e->b)))); break;
        case E_FNAN: r = B(z3::expr(c, Z3_mk_fpa_is_nan(c, flt(e->a)))); break;
        }
        memo.emplace(e, r);
    }
    return memo.at(root);
}

// ------------------------------------------------------------------ engine
struct Frame { FuncInfo* f; u32 pc; u32 rb; u64 sp; };
struct HeapObj { u64 addr, size; bool live, counted; };
struct ExcInfo { u64 ptr, ti, dtor; int handlers; bool rethrown; };

struct Engine {
    Mod* m = nullptr; Solver solver; Stats st; std::vector<Viol> viols; std::vector<Sample> samples;
    std::vector<Val> regs; std::vector<Frame> fr; u64 sp, heapTop; std::vector<HeapObj> heap; u64 liveCount;
    std::vector<u8> model; u32 nsym, nundef; Job* job; std::vector<Job>* out; u32 ev; std::vector<Expr*> pcE; std::vector<int> pcL; std::unordered_set<Expr*> pcSet;
    std::vector<ExcInfo> excs; std::vector<int> caught; u64 lpPtr; int lpSel; u64 obs; u32 nobs; u64 steps, limit; bool pathAssert; int curTask = -1; u64 assertSerial = 0;
    const Inst* cur = nullptr; FuncInfo* curF = nullptr; std::set<FuncInfo*> touched; std::vector<std::pair<Val*, int>> dummy;
    u32 inflight = 0; bool eager = false; u64 pathCounts[8]; int taskSamples = 0; u64 pathNo = 0;

    [[noreturn]] void end(EndKind k, const std::string& s) { throw PathEnd{k, s}; }
    std::string where() {
        std::string s;
        for (int i = (int)fr.size() - 1, n = 0; i >= 0 && n < 4; --i, ++n) {
            Frame& F = fr[i]; const Instruction* I = F.pc < F.f->code.size() ? F.f->code[F.pc].I : nullptr; std::string loc;
            if (I) if (DILocation* L = I->getDebugLoc()) loc = " " + L->getFilename().str() + ":" + std::to_string(L->getLine());
            std::string nm = demangle(F.f->F->getName().str()); if (nm.size() > 120) nm = nm.substr(0, 120) + "...";
            s += "\n    at " + nm + loc;
        }
        return s;
    }
    [[noreturn]] void viol(const std::string& s) { end(END_VIOL, s + where()); }
    [[noreturn]] void internal(const std::string& s) { end(END_INTERNAL, s + where()); }

    // ---- memory access
    bool okRange(u64 a, u64 n) { return a >= BASE && a + n <= BASE + RSIZE && a + n >= a; }
    std::string hex(u64 a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
    std::string describe(u64 a) {
        for (auto& h : heap) if (a + 64 >= h.addr && a < h.addr + h.size + 64) { std::string s = h.live ? "heap object of " : "freed heap object of "; return s + std::to_string(h.size) + " bytes, offset " + std::to_string((i64)(a - h.addr)); }
        if (a < BASE) return "null or wild pointer";
        if (a >= STK0 && a < STK_END) return "stack";
        if (a >= GLOB0 && a < GLOB_END) return "global";
        return "wild";
    }
    void checkAcc(u64 a, u64 n, bool wr) {
        if (!okRange(a, n)) viol(std::string("invalid memory ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + hex(a) + " (" + describe(a) + ")");
        for (u64 i = 0; i < n; ++i) { u8 fl = flg(a + i); if (!(fl & F_ADDR) || (wr && (fl & F_RO))) viol(std::string("out-of-bounds or use-after-free ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes (" + describe(a + i) + ")"); }
    }
    Expr* byteExpr(u64 a) { // byte as expression (may be const)
        u8 fl = flg(a);
        if (fl & F_SYM) { u64 s = shd(a); Expr* e = (Expr*)(s & ~15ULL); return mkExtract(e, 8 * (unsigned)(s & 15), 8); }
        if (!(fl & F_INIT)) { Expr* v = mkVar((1u << 24) + nundef++); flg(a) |= F_INIT | F_SYM; shd(a) = (u64)v; return v; }
        return mkConst(8, *(u8*)a);
    }
    inline void load(u64 a, unsigned w, Val& r) {
        unsigned n = (w + 7) / 8;
        if (okRange(a, n)) {
            bool fast = true;
            if (n == 8) { u64 fw; memcpy(&fw, &flg(a), 8); fast = (fw & 0x0707070707070707ULL) == 0x0303030303030303ULL; }
            else if (n == 4) { u32 fw; memcpy(&fw, &flg(a), 4); fast = (fw & 0x07070707U) == 0x03030303U; }
            else for (unsigned i = 0; i < n; ++i) if ((flg(a + i) & 7) != 3) { fast = false; break; }
            if (fast) { r.e = nullptr; r.h = 0; r.c = 0; if (n <= 8) { memcpy(&r.c, (void*)a, n); if (w < 64) r.c &= (1ULL << w) - 1; } else { u128 v = 0; memcpy(&v, (void*)a, n); v &= maskw(w); r.c = (u64)v; r.h = (u64)(v >> 64); } return; }
        }
        checkAcc(a, n, false);
        u128 cv = 0; memcpy(&cv, (void*)a, std::min(n, 16u)); cv &= maskw(w);
        if (n > 16) internal("wide load");
        // whole expression?
        Expr* e = nullptr; u64 s0 = (flg(a) & F_SYM) ? shd(a) : 0;
        if (s0 && !(s0 & 15)) { Expr* x = (Expr*)s0; bool all = (x->w + 7u) / 8 == n && x->w % 8 == 0; for (unsigned i = 1; all && i < n; ++i) if (!(flg(a + i) & F_SYM) || shd(a + i) != s0 + i) all = false; if (all) e = x; }
        if (!e) for (unsigned i = 0; i < n; ++i) { Expr* b = byteExpr(a + i); e = e ? mkConcat(b, e) : b; }
        if (e->w > w) e = mkExtract(e, 0, w);
        r.c = (u64)cv; r.h = (u64)(cv >> 64); r.e = isC(e) ? nullptr : e;
    }
    inline void store(u64 a, unsigned w, const Val& v) {
        unsigned n = (w + 7) / 8;
        if (!v.e && okRange(a, n)) {
            bool fast = true;
            if (n == 8) { u64 fw; memcpy(&fw, &flg(a), 8); fast = (fw & 0x0909090909090909ULL) == 0x0101010101010101ULL; if (fast) { fw = 0x0303030303030303ULL; memcpy(&flg(a), &fw, 8); memcpy((void*)a, &v.c, 8); return; } }
            else if (n == 4) { u32 fw; memcpy(&fw, &flg(a), 4); fast = (fw & 0x09090909U) == 0x01010101U; if (fast) { fw = 0x03030303U; memcpy(&flg(a), &fw, 4); memcpy((void*)a, &v.c, 4); return; } }
            else { for (unsigned i = 0; i < n; ++i) if ((flg(a + i) & 9) != 1) { fast = false; break; }
                if (fast) { for (unsigned i = 0; i < n; ++i) flg(a + i) = 3; if (n <= 8) memcpy((void*)a, &v.c, n); else { u128 x = ((u128)v.h << 64) | v.c; memcpy((void*)a, &x, n); } return; } }
        }
        checkAcc(a, n, true);
        u128 x = ((u128)v.h << 64) | v.c; if (n > 16) internal("wide store"); memcpy((void*)a, &x, n);
        Expr* e = v.e; if (e && e->w % 8) e = mkZext(e, n * 8);
        for (unsigned i = 0; i < n; ++i) {
            if (e) {
                // keep constant bytes concrete
                if (e->op == E_CONCAT || e->op == E_ZEXT || e->op == E_ITE) { Expr* b = mkExtract(e, 8 * i, 8); if (isC(b)) { flg(a + i) = 3; ((u8*)a)[i] = (u8)b->k; continue; } }
                flg(a + i) = 7; shd(a + i) = (u64)e | i;
            } else flg(a + i) = 3;
        }
    }
    void copyMem(u64 d, u64 s, u64 n) {
        if (!n || d == s) { if (n) { checkAcc(s, n, false); checkAcc(d, n, true); } return; }
        checkAcc(s, n, false); checkAcc(d, n, true);
        memmove((void*)d, (void*)s, n);
        std::vector<u8> f(n); memcpy(f.data(), &flg(s), n); bool anyS = false; for (u64 i = 0; i < n; ++i) if (f[i] & F_SYM) anyS = true;
        if (anyS) memmove(&shd(d), &shd(s), n * 8);
        for (u64 i = 0; i < n; ++i) flg(d + i) = f[i] & ~F_RO;
    }
    u64 halloc(u64 n, bool counted) {
        u64 a = (heapTop + 48 + 15) & ~15ULL; u64 e = a + n + 32; if (n > (1ULL << 28) || e > HEAP_END) return 0;
        heapTop = e; memset(&flg(a), F_ADDR, n); *(u64*)(a - 8) = heap.size() + 1; heap.push_back({a, n, true, counted}); if (counted) ++liveCount; return a;
    }
    void hfree(u64 a) {
        if (!a) return; u64 idx = (a >= HEAP0 && a < heapTop) ? *(u64*)(a - 8) : 0;
        if (!idx || idx > heap.size() || heap[idx - 1].addr != a) viol("free of a pointer that is not a live allocation (" + describe(a) + ")");
        HeapObj& h = heap[idx - 1]; if (!h.live) viol("double free of a " + std::to_string(h.size) + " byte heap object");
        h.live = false; if (h.counted) --liveCount; memset(&flg(a), 0, h.size);
    }

    // ---- solver events
    Expr* E(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, ((u128)v.h << 64) | v.c); }
    void crossCheck(const std::vector<Expr*>& cs, int res) {
        if (res < 0) return; ++st.xchk; z3::context c; z3::solver s(c); z3::params p(c); p.set("timeout", 20000u); s.set(p); std::unordered_map<Expr*, z3::expr> memo;
        for (Expr* e : cs) s.add(toZ3(c, e, memo) == c.bv_val(1, 1));
        z3::check_result r = s.check();
        if (r == z3::unknown) return;
        if ((r == z3::sat) != (res == 1)) internal("solver disagreement: minisat=" + std::to_string(res));
    }
    int query(const std::vector<Expr*>& extra, std::vector<u8>* mod) {
        std::vector<int> as = pcL; for (Expr* e : extra) { int l = solver.lit1(e); if (l == Solver::FALSE_) { ++st.infeasible; return 0; } as.push_back(l); }
        double t0 = solver.tSolve; int r = solver.check(as, confBudget); st.tsolve += solver.tSolve - t0; ++st.queries;
        if (r == 0) ++st.infeasible;
        if (r < 0) ++st.unknown;
        if (r == 1 && mod) { *mod = model; solver.model(*mod); }
        bool x = xchkEvery && (st.queries % xchkEvery == 1);
        if (x) { std::vector<Expr*> cs = pcE; for (Expr* e : extra) cs.push_back(e); crossCheck(cs, r); }
        if (r == 1 && mod && (st.queries % 64 == 1)) { for (Expr* e : extra) if (!e->taint && evalExpr(e, *mod) != 1) internal("model does not satisfy query"); }
        return r;
    }
    void pushPC(Expr* c) { pcE.push_back(c); int l = solver.lit1(c); if (l == Solver::FALSE_) internal("path condition blasts to false"); pcL.push_back(l); pcSet.insert(c); }
    // returns the concrete outcome
    bool branch(const Val& v, const char* what = "branch") {
        bool o = v.c & 1; if (!v.e) return o;
        if (v.e->taint) viol(std::string("uninitialised value decides a ") + what);
        Expr* taken = o ? v.e : mkNot(v.e); if (isC(taken) || pcSet.count(taken)) return o;
        u32 i = ev++; ++st.events;
        if (i >= job->bound) {
            std::vector<u8> nm; Expr* neg = mkNot(taken);
            if (query({neg}, &nm) == 1) out->push_back(Job{job->task, i + 1, (u8)!o, {}, std::move(nm)});
        } else if (i + 1 == job->bound && job->excl.empty()) { if (o != (bool)job->expect) internal("divergence at event " + std::to_string(i)); }
        pushPC(taken); return o;
    }
    u64 conc(const Val& v, unsigned w, const char* what) {
        if (!v.e) return v.c;
        if (v.e->taint) viol(std::string("uninitialised value used as ") + what);
        if (w > 64) internal("wide concretize");
        Expr* eq = mkEq(v.e, mkConst(w, v.c)); if (isC(eq) || pcSet.count(eq)) return v.c;
        u32 i = ev++; ++st.events; std::vector<u64> ex;
        bool mine = i + 1 == job->bound; if (mine) ex = job->excl;
        if (i >= job->bound || mine) {
            for (u64 x : ex) if (x == v.c) internal("divergence (concretize)");
            std::vector<Expr*> q; ex.push_back(v.c); for (u64 x : ex) q.push_back(mkNot(mkEq(v.e, mkConst(w, x))));
            std::vector<u8> nm; if (query(q, &nm) == 1) out->push_back(Job{job->task, i + 1, 0, ex, std::move(nm)});
        }
        pushPC(eq); return v.c;
    }
    void assume(const Val& v) {
        bool o = v.c & 1; if (!v.e) { if (!o) end(END_ASSUME, ""); return; }
        if (v.e->taint) viol("uninitialised value in assume");
        Expr* t = v.e; if (pcSet.count(t)) return;
        u32 i = ev++;
        if (!o) { if (i >= job->bound) { std::vector<u8> nm; if (query({t}, &nm) == 1) out->push_back(Job{job->task, i + 1, 1, {}, std::move(nm)}); } end(END_ASSUME, ""); }
        pushPC(t);
    }
    void doAssert(const Val& v, const std::string& msg) {
        pathAssert = true;
        if (!(v.c & 1)) viol("assertion failed: " + msg);
        if (ev < job->bound) return;         // same prefix as the parent run, already discharged
        ++st.asserts;
        if (!v.e) return;
        if (v.e->taint) viol("assertion depends on an uninitialised value: " + msg);
        std::vector<u8> nm; int r = query({mkNot(v.e)}, &nm);
        if (r == 1) { model = nm; viol("assertion failed: " + msg); }
    }
    // finds pairs of the n bytes at p that are ordered on every input of this path, and remembers them as lemmas:
    // candidates survive simulation under random models, the solver decides each one
    i64 ordBudget = -1;
    void learnOrder(u64 p, u64 n) {
        std::vector<Expr*> x(n); for (u64 i = 0; i < n; ++i) x[i] = byteExpr(p + i);
        std::vector<char> cand(n * n, 1); for (u64 i = 0; i < n; ++i) cand[i * n + i] = 0;
        auto refine = [&](const std::vector<u8>& md) {
            std::vector<u8> v(n); auto r = evalMany(x, md); for (u64 i = 0; i < n; ++i) v[i] = (u8)r[i];
            for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) if (v[i] > v[j]) cand[i * n + j] = 0;
        };
        refine(model); u64 s = 88172645463325252ULL; auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
        for (int t = 0; t < 48; ++t) { std::vector<u8> md = model; u64 w = 1 + rnd() % 15; for (u8& b : md) b = rnd() % 16 < w; bool ok = true; auto r = evalMany(pcE, md); for (auto& q : r) if (q != 1) { ok = false; break; } if (ok) refine(md); }
        std::vector<char> known(n * n, 0);
        for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) {
            if (!cand[i * n + j] || known[i * n + j]) continue;
            if (x[i] == x[j]) continue;
            Expr* le = mkNot(mkUlt(x[j], x[i])); if (isC(le)) { if (!le->k) continue; }
            else if (!pcSet.count(le)) {
                i64 cb = confBudget; confBudget = ordBudget; std::vector<u8> nm; int r = query({mkNot(le)}, &nm); confBudget = cb; if (r == 1) { refine(nm); continue; } if (r < 0) continue;
                pushPC(le);
            }
            known[i * n + j] = 1;      // and what follows by transitivity
            for (u64 a = 0; a < n; ++a) if (a == i || known[a * n + i]) for (u64 b = 0; b < n; ++b) if (b == j || known[j * n + b]) known[a * n + b] = 1;
        }
    }
    std::string cstr(u64 a) { std::string s; for (; okRange(a, 1) && (flg(a) & F_ADDR) && *(char*)a; ++a) s += *(char*)a; return s; }

    // ---- calls
    Mod& M() { return *m; }
    FuncInfo* get(Function* F) { FuncInfo* fi = m->fi.at(F); if (!fi->decoded) { Loader l(*m); l.decode(fi); } return fi; }
    void push(FuncInfo* f, const Val* args, int n) {
        if (fr.size() > 6000) viol("call stack deeper than 6000 frames");
        u32 rb = fr.empty() ? 0 : fr.back().rb + fr.back().f->nregs;
        if (regs.size() < rb + f->nregs + 64) { internal("register file exhausted"); }
        for (int i = 0; i < n; ++i) regs[rb + i] = args[i];
        fr.push_back({f, 0, rb, sp});
    }
    void popFrame() { Frame& F = fr.back(); if (sp > F.sp) memset(&flg(F.sp), 0, sp - F.sp); sp = F.sp; fr.pop_back(); }
    inline Val* V(Frame& F, int o) { return o >= 0 ? &regs[F.rb + o] : &F.f->consts[~o]; }
    void takeEdge(Frame& F, u32 e) {
        Edge& ed = F.f->edges[e];
        if (!ed.overlap) { for (u32 i = 0; i < ed.cpn; ++i) { auto& c = F.f->copies[ed.cp0 + i]; regs[F.rb + c.first] = *V(F, c.second); } }
        else { Val tmp[128]; if (ed.cpn > 128) internal("too many phis"); for (u32 i = 0; i < ed.cpn; ++i) tmp[i] = *V(F, F.f->copies[ed.cp0 + i].second); for (u32 i = 0; i < ed.cpn; ++i) regs[F.rb + F.f->copies[ed.cp0 + i].first] = tmp[i]; }
        F.pc = ed.pc;
    }
    void retTo(const Val* v, int n) { // current top frame is the caller, at its call instruction
        Frame& F = fr.back(); Inst& I = F.f->code[F.pc]; CallInfo& ci = F.f->calls[I.x];
        for (int i = 0; i < ci.nret && i < n; ++i) regs[F.rb + I.dst + i] = v[i];
        if (ci.normal >= 0) takeEdge(F, ci.normal); else ++F.pc;
    }
    int typeId(u64 ti) { auto it = m->typeIds.find(ti); if (it != m->typeIds.end()) return it->second; int id = (int)m->typeIds.size() + 1; m->typeIds[ti] = id; return id; }
    bool catches(u64 clause, u64 ti) {
        if (!clause) return true;
        for (int d = 0; d < 16 && ti; ++d) {
            if (clause == ti) return true;
            if (ti == m->badAllocTi && m->badAllocTi) { ti = m->excTi; continue; }
            u64 vt = *(u64*)ti; if (m->siVt && vt == m->siVt) ti = *(u64*)(ti + 16); else break;
        }
        return false;
    }
    void unwind(int exc) {
        u64 ti = excs[exc].ti;
        while (!fr.empty()) {
            Frame& F = fr.back(); Inst& I = F.f->code[F.pc];
            if (I.op == O_CALL) {
                CallInfo& ci = F.f->calls[I.x];
                if (ci.unwind >= 0) {
                    Edge& ed = F.f->edges[ci.unwind]; const LandingPadInst* LP = cast<LandingPadInst>(F.f->code[ed.pc].I); bool enter = LP->isCleanup(); int sel = 0; Loader ld(*m);
                    for (unsigned k = 0; k < LP->getNumClauses(); ++k) {
                        if (LP->isCatch(k)) { u64 cl = (u64)ld.scalar(LP->getClause(k)); if (catches(cl, ti)) { enter = true; sel = typeId(cl); break; } }
                        else { enter = true; sel = -1; break; }
                    }
                    if (enter) { lpPtr = excs[exc].ptr; lpSel = sel; takeEdge(F, ci.unwind); return; }
                }
            }
            popFrame();
        }
        end(END_VIOL, "uncaught exception of type " + m->addrName[ti]);
    }
    int findExc(u64 p) { for (int i = (int)excs.size() - 1; i >= 0; --i) if (excs[i].ptr == p) return i; internal("unknown exception object"); }

    void builtin(Frame& F, Inst& I, CallInfo& ci) {
        auto A = [&](int i) -> Val& { return *V(F, ci.args[i].first); };
        Val r{0, 0, nullptr};
        switch (ci.builtin) {
        case B_SYM_BYTES: { u64 p = A(0).c, n = A(1).c; checkAcc(p, n, true); for (u64 i = 0; i < n; ++i) { u32 id = nsym++; if (id >= model.size()) model.resize(id + 1, 0); *(u8*)(p + i) = model[id]; flg(p + i) = 7; shd(p + i) = (u64)mkVar(id); } break; }
        case B_ASSUME: { Val& v = A(0); Val b{v.c != 0, 0, v.e ? mkNot(mkEq(v.e, mkConst(v.e->w, 0))) : nullptr}; if (b.e && isC(b.e)) b.e = nullptr; assume(b); break; }
        case B_ASSERT: { Val& v = A(0); Val b{v.c != 0, 0, v.e ? mkNot(mkEq(v.e, mkConst(v.e->w, 0))) : nullptr}; if (b.e && isC(b.e)) b.e = nullptr; doAssert(b, cstr(A(1).c)); break; }
        case B_FAIL: viol(cstr(A(0).c));
        case B_OBS: { u64 x = A(0).c; obs = (obs ^ x) * 0x100000001b3ULL; obs ^= obs >> 31; ++nobs; break; }
        case B_COUNT: { u64 i = A(0).c; if (i < 8) pathCounts[i] += A(1).c; break; }
        case B_NATIVE: r.c = 0; break;
        case B_MALLOC: { u64 n = conc(A(0), 64, "allocation size"); r.c = halloc(n, true); break; }
        case B_FREE: hfree(conc(A(0), 64, "pointer to free")); break;
        case B_LIVE: r.c = liveCount; break;
        case B_CONC: r.c = conc(A(0), 64, "concretised value"); break;
        case B_FORK: { Val& v = A(0); Val b{v.c != 0, 0, v.e ? mkNot(mkEq(v.e, mkConst(v.e->w, 0))) : nullptr}; if (b.e && isC(b.e)) b.e = nullptr; r.c = branch(b); break; }
        case B_STEPS: r.c = steps; break;
        case B_DEPTH: r.c = fr.size(); break;
        case B_EAGER: eager = A(0).c; break;
        case B_ORDER: learnOrder(A(0).c, A(1).c); break;
        case B_PERM: {
            u64 a = A(0).c, b = A(1).c, n = conc(A(2), 64, "count"), sz = A(3).c; if (sz > 16) internal("sym_perm record size");
            std::vector<Val> x(n), y(n); for (u64 i = 0; i < n; ++i) { load(a + i * sz, sz * 8, x[i]); load(b + i * sz, sz * 8, y[i]); }
            auto key = [&](std::vector<Val>& v) { std::vector<Expr*> r; for (auto& q : v) r.push_back(E(q, sz * 8)); std::sort(r.begin(), r.end()); return r; };
            auto kx = key(x), ky = key(y); if (kx == ky) { r.c = 1; break; }
            // per distinct value: occurrences in a minus occurrences in b; the sum over equal values has to be 0
            std::map<Expr*, int> cnt; for (Expr* q : kx) ++cnt[q]; for (Expr* q : ky) --cnt[q];
            std::vector<std::pair<Expr*, int>> df; for (auto& q : cnt) if (q.second) df.push_back(q);
            Expr* all = mkConst(1, 1);
            if (df.size() > 1200) { std::vector<u128> vx, vy; for (auto& q : x) vx.push_back(((u128)q.h << 64) | q.c); for (auto& q : y) vy.push_back(((u128)q.h << 64) | q.c); std::sort(vx.begin(), vx.end()); std::sort(vy.begin(), vy.end()); if (vx != vy) { r.c = 0; break; } internal("sym_perm too large"); }
            for (auto& v : df) { Expr* s = mkConst(16, 0); for (auto& q : df) s = mkBin(E_ADD, s, mkIte(mkEq(v.first, q.first), mkConst(16, (u128)(u16)q.second), mkConst(16, 0))); all = mkBin(E_AND, all, mkEq(s, mkConst(16, 0))); }
            { std::vector<u128> vx, vy; for (auto& q : x) vx.push_back(((u128)q.h << 64) | q.c); for (auto& q : y) vy.push_back(((u128)q.h << 64) | q.c); std::sort(vx.begin(), vx.end()); std::sort(vy.begin(), vy.end()); r.c = vx == vy; }
            if (isC(all)) r.c = (u64)all->k; else r.e = mkZext(all, 32);
            break;
        }
        case B_MEMCMP: {
            u64 a = conc(A(0), 64, "pointer"), b = conc(A(1), 64, "pointer"), n = conc(A(2), 64, "memcmp size"); if (n) { checkAcc(a, n, false); checkAcc(b, n, false); }
            Expr* e = mkConst(32, 0); int cv = 0;
            for (u64 i = n; i-- > 0;) { Expr *x = byteExpr(a + i), *y = byteExpr(b + i); e = mkIte(mkEq(x, y), e, mkBin(E_SUB, mkZext(x, 32), mkZext(y, 32))); }
            for (u64 i = 0; i < n; ++i) if (((u8*)a)[i] != ((u8*)b)[i]) { cv = (int)((u8*)a)[i] - (int)((u8*)b)[i]; break; }
            r.c = (u32)cv; if (!isC(e)) r.e = e; break;
        }
        case B_LOC0: case B_LOC1: store(conc(A(0), 64, "pointer"), 64, Val{ci.builtin == B_LOC1 ? 1u : 0u, 0, nullptr}); break;
        case B_LOCC: { u64 d = conc(A(0), 64, "pointer"), sc = conc(A(1), 64, "pointer"); Val v; load(sc, 64, v); store(d, 64, v); r.c = d; break; }
        case B_STRLEN: { u64 a = conc(A(0), 64, "pointer"), n = 0; for (;; ++n) { Val v; load(a + n, 8, v); Val z = cmp(O_EQ, v, Val{0, 0, nullptr}, 8); if (branch(z)) break; } r.c = n; break; }
        case B_POISON: { u64 p = A(0).c, n = A(1).c; for (u64 i = 0; i < n; ++i) flg(p + i) &= ~(F_INIT | F_SYM); break; }
        case B_CXA_ALLOC: r.c = halloc(A(0).c, false); break;
        case B_CXA_FREE: break;
        case B_CXA_THROW: { ++inflight; excs.push_back({A(0).c, A(1).c, A(2).c, 0, false}); unwind((int)excs.size() - 1); return; }
        case B_BEGIN_CATCH: { if (inflight) --inflight; int e = findExc(A(0).c); excs[e].handlers++; excs[e].rethrown = false; caught.push_back(e); r.c = A(0).c; break; }
        case B_GETEXC: r.c = A(0).c; break;
        case B_END_CATCH: {
            if (caught.empty()) internal("end_catch"); int e = caught.back(); caught.pop_back(); excs[e].handlers--;
            if (!excs[e].rethrown && excs[e].handlers <= 0 && excs[e].dtor) {
                FuncInfo* d = m->byAddr.count(excs[e].dtor) ? m->byAddr[excs[e].dtor] : nullptr; u64 p = excs[e].ptr; excs[e].dtor = 0;
                if (d && !d->F->isDeclaration()) { get(d->F); Val a{p, 0, nullptr}; push(d, &a, 1); return; }
            }
            break;
        }
        case B_RETHROW: { if (caught.empty()) viol("rethrow without exception"); ++inflight; int e = caught.back(); excs[e].rethrown = true; unwind(e); return; }
        case B_UNCAUGHT: r.c = inflight; break;
        case B_TERM: viol("std::terminate called");
        case B_ABORT: viol("abort called");
        case B_ASSERTFAIL: { std::string s; if (ci.args.size() > 3) { for (auto& a : ci.args) if (a.second == 1) { u64 p = V(F, a.first)->c; if (okRange(p, 1)) { s = cstr(p); } } if (ci.fn && ci.fn->getName() == "__assert_fail") s = cstr(A(0).c); } viol("library assertion failed: " + s); }
        case B_STDTHROW: viol("libstdc++ error raised: " + demangle(ci.fn->getName().str()));
        case B_NOP: if (ci.nret == 1 && ci.args.size()) r = Val{0, 0, nullptr}; break;
        case B_GUARD_ACQ: { Val g; load(A(0).c, 8, g); r.c = g.c == 0; break; }
        case B_GUARD_REL: { Val one{1, 0, nullptr}; store(A(0).c, 8, one); break; }
        case B_TIME: { static u64 t; r.c = (t += 1000); break; }
        case B_LOG: case B_SQRT: case B_LOG10: case B_LN: { if (A(0).e) internal("symbolic floating-point argument"); double d; u64 x = A(0).c; memcpy(&d, &x, 8); d = ci.builtin == B_LOG ? log2(d) : ci.builtin == B_SQRT ? sqrt(d) : ci.builtin == B_LN ? log(d) : log10(d); memcpy(&r.c, &d, 8); break; }
        default: internal("builtin");
        }
        if (ci.nret == 1) { retTo(&r, 1); } else retTo(nullptr, 0);
        (void)I;
    }

    Val bin(Opc op, const Val& a, const Val& b, unsigned w) {
        Val r; r.h = 0; r.e = nullptr; r.c = 0;
        if (w <= 64) {
            u64 x = a.c, y = b.c, M = (u64)maskw(w);
            switch (op) {
            case O_ADD: r.c = (x + y) & M; break; case O_SUB: r.c = (x - y) & M; break; case O_MUL: r.c = (x * y) & M; break;
            case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
                if (b.e) { Expr* z = mkEq(b.e, mkConst(w, 0)); Val zv{y == 0, 0, isC(z) ? nullptr : z}; if (branch(zv)) viol("division by zero"); }
                else if (y == 0) viol("division by zero");
                if (op == O_UDIV) r.c = x / y; else if (op == O_UREM) r.c = x % y;
                else { i64 p = (i64)sxt(x, w), q = (i64)sxt(y, w); if (q == -1) r.c = op == O_SDIV ? (u64)(0 - (u64)p) & M : 0; else r.c = (u64)(op == O_SDIV ? p / q : p % q) & M; }
                break;
            }
            case O_SHL: r.c = y >= w ? 0 : (x << y) & M; break; case O_LSHR: r.c = y >= w ? 0 : x >> y; break;
            case O_ASHR: r.c = (u64)((i64)sxt(x, w) >> (y >= w ? w - 1 : y)) & M; break;
            case O_AND: r.c = x & y; break; case O_OR: r.c = x | y; break; default: r.c = x ^ y; break;
            }
        } else {
            u128 x = ((u128)a.h << 64) | a.c, y = ((u128)b.h << 64) | b.c, M = maskw(w), v = 0;
            switch (op) {
            case O_ADD: v = x + y; break; case O_SUB: v = x - y; break; case O_MUL: v = x * y; break;
            case O_UDIV: if (!y) viol("division by zero"); v = x / y; break; case O_UREM: if (!y) viol("division by zero"); v = x % y; break;
            case O_SDIV: case O_SREM: { i128 p = sxt(x, w), q = sxt(y, w); if (!q) viol("division by zero"); v = (u128)(op == O_SDIV ? p / q : p % q); break; }
            case O_SHL: v = y >= w ? 0 : x << (unsigned)y; break; case O_LSHR: v = y >= w ? 0 : x >> (unsigned)y; break;
            case O_ASHR: v = (u128)(sxt(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
            case O_AND: v = x & y; break; case O_OR: v = x | y; break; default: v = x ^ y; break;
            }
            v &= M; r.c = (u64)v; r.h = (u64)(v >> 64);
        }
        if (a.e || b.e) {
            static const Op mp[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR};
            Expr* e = mkBin(mp[op], E(a, w), E(b, w)); if (!isC(e)) r.e = e;
        }
        return r;
    }
    Val cmp(Opc op, const Val& a, const Val& b, unsigned w) {
        Val r{0, 0, nullptr};
        if (w <= 64) {
            u64 x = a.c, y = b.c; i64 p = (i64)sxt(x, w), q = (i64)sxt(y, w);
            switch (op) { case O_EQ: r.c = x == y; break; case O_NE: r.c = x != y; break; case O_ULT: r.c = x < y; break; case O_ULE: r.c = x <= y; break; case O_UGT: r.c = x > y; break; case O_UGE: r.c = x >= y; break;
            case O_SLT: r.c = p < q; break; case O_SLE: r.c = p <= q; break; case O_SGT: r.c = p > q; break; default: r.c = p >= q; break; }
        } else {
            u128 x = ((u128)a.h << 64) | a.c, y = ((u128)b.h << 64) | b.c; i128 p = sxt(x, w), q = sxt(y, w);
            switch (op) { case O_EQ: r.c = x == y; break; case O_NE: r.c = x != y; break; case O_ULT: r.c = x < y; break; case O_ULE: r.c = x <= y; break; case O_UGT: r.c = x > y; break; case O_UGE: r.c = x >= y; break;
            case O_SLT: r.c = p < q; break; case O_SLE: r.c = p <= q; break; case O_SGT: r.c = p > q; break; default: r.c = p >= q; break; }
        }
        if (a.e || b.e) {
            Expr *x = E(a, w), *y = E(b, w), *e;
            switch (op) { case O_EQ: e = mkEq(x, y); break; case O_NE: e = mkNot(mkEq(x, y)); break; case O_ULT: e = mkUlt(x, y); break; case O_ULE: e = mkNot(mkUlt(y, x)); break; case O_UGT: e = mkUlt(y, x); break; case O_UGE: e = mkNot(mkUlt(x, y)); break;
            case O_SLT: e = mkSlt(x, y); break; case O_SLE: e = mkNot(mkSlt(y, x)); break; case O_SGT: e = mkSlt(y, x); break; default: e = mkNot(mkSlt(x, y)); break; }
            if (!isC(e)) r.e = e;
        }
        return r;
    }
    static double toD(u64 c, unsigned w) { if (w == 32) { u32 x = (u32)c; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
    static u64 frD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
    Val fcmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
        double x = toD(a.c, w), y = toD(b.c, w); bool u = x != x || y != y; Val r{0, 0, nullptr};
        bool l = x < y, g = x > y, e = x == y;
        r.c = ((pred & 1) && e) || ((pred & 2) && g) || ((pred & 4) && l) || ((pred & 8) && u);
        if (a.e || b.e) {
            Expr *p = E(a, w), *q = E(b, w), *o = mkConst(1, 0);
            if ((pred & 7) == 7) o = mkNot(mkBin(E_OR, mkF(E_FNAN, p, nullptr), mkF(E_FNAN, q, nullptr)));
            else { if ((pred & 5) == 5) o = mkBin(E_OR, o, mkF(E_FLE, p, q)); else if ((pred & 3) == 3) o = mkBin(E_OR, o, mkF(E_FLE, q, p));
                if ((pred & 1) && !(pred & 6)) o = mkBin(E_OR, o, mkF(E_FEQ, p, q));
                if ((pred & 4) && !(pred & 1)) o = mkBin(E_OR, o, mkF(E_FLT, p, q));
                if ((pred & 2) && (!(pred & 1))) o = mkBin(E_OR, o, mkF(E_FLT, q, p)); }
            if (pred & 8) o = mkBin(E_OR, o, mkBin(E_OR, mkF(E_FNAN, p, nullptr), mkF(E_FNAN, q, nullptr)));
            if (pred == 15) o = mkConst(1, 1);
            if (pred == 0) o = mkConst(1, 0);
            if (!isC(o)) r.e = o;
        }
        return r;
    }
    void intrinsic(Frame& F, Inst& I, CallInfo& ci) {
        auto A = [&](int i) -> Val& { return *V(F, ci.args[i].first); };
        unsigned w = ci.retw; Val r{0, 0, nullptr}; Val r2{0, 0, nullptr}; int nr = ci.nret;
        auto sel = [&](const Val& c, const Val& a, const Val& b) { if (c.e && eager && !c.e->taint) { bool t = branch(c); return t ? a : b; } Val o = (c.c & 1) ? a : b; o.e = nullptr; if (c.e || a.e || b.e) { Expr* e = mkIte(E(c, 1), E(a, w), E(b, w)); if (!isC(e)) o.e = e; } return o; };
        switch (ci.iid) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 n = conc(A(2), 64, "memcpy size"), d = conc(A(0), 64, "pointer"), s = conc(A(1), 64, "pointer"); copyMem(d, s, n); break; }
        case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = conc(A(2), 64, "memset size"), d = conc(A(0), 64, "pointer"); Val b = A(1); for (u64 i = 0; i < n; ++i) store(d + i, 8, b); break; }
        case Intrinsic::lifetime_start: { u64 p = A(1).c, n = A(0).c; if (n != ~0ULL) for (u64 i = 0; i < n; ++i) flg(p + i) = F_ADDR; break; }
        case Intrinsic::lifetime_end: { u64 p = A(1).c, n = A(0).c; if (n != ~0ULL) for (u64 i = 0; i < n; ++i) flg(p + i) &= ~(F_INIT | F_SYM); break; }   // dead objects have no value
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::prefetch: break;
        case Intrinsic::invariant_start: break;
        case Intrinsic::stacksave: case Intrinsic::stackrestore: break;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: r = A(0); break;
        case Intrinsic::is_constant: r.c = 0; break;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: r = A(0); break;
        case Intrinsic::objectsize: r.c = ~0ULL; break;
        case Intrinsic::eh_typeid_for: r.c = (u32)typeId(A(0).c); break;
        case Intrinsic::trap: viol("trap"); 
        case Intrinsic::ubsantrap: {
            static const std::map<int, const char*> nm = {{0, "signed addition overflow"}, {1, "builtin unreachable"}, {2, "cfi"}, {3, "division overflow or by zero"}, {5, "float cast overflow"}, {7, "implicit conversion"}, {8, "invalid builtin"}, {10, "load of invalid value"}, {11, "missing return"}, {12, "signed multiplication overflow"}, {13, "signed negation overflow"}, {16, "null pointer misuse"}, {18, "array index out of bounds"}, {19, "pointer overflow"}, {20, "shift out of bounds"}, {21, "signed subtraction overflow"}, {22, "type mismatch"}};
            int k = (int)A(0).c; auto it = nm.find(k); viol(std::string("undefined behaviour: ") + (it != nm.end() ? it->second : std::to_string(k).c_str()));
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
            Val& a = A(0); u128 x = ((u128)a.h << 64) | a.c; unsigned n = 0;
            if (ci.iid == Intrinsic::ctpop) { for (unsigned i = 0; i < w; ++i) n += (x >> i) & 1; }
            else if (ci.iid == Intrinsic::ctlz) { n = 0; while (n < w && !((x >> (w - 1 - n)) & 1)) ++n; } else { while (n < w && !((x >> n) & 1)) ++n; }
            r.c = n;
            if (a.e) { Expr* e; if (ci.iid == Intrinsic::ctpop) { e = mkConst(w, 0); for (unsigned i = 0; i < w; ++i) e = mkBin(E_ADD, e, mkZext(mkExtract(a.e, i, 1), w)); }
                else { e = mkConst(w, w); for (unsigned i = 0; i < w; ++i) { unsigned bit = ci.iid == Intrinsic::ctlz ? i : w - 1 - i; unsigned cnt = ci.iid == Intrinsic::ctlz ? w - 1 - i : w - 1 - i; (void)bit; e = mkIte(mkExtract(a.e, ci.iid == Intrinsic::ctlz ? i : w - 1 - i, 1), mkConst(w, cnt), e); } }
                if (!isC(e)) r.e = e; }
            break;
        }
        case Intrinsic::bswap: { Val& a = A(0); u128 x = ((u128)a.h << 64) | a.c, y = 0; for (unsigned i = 0; i < w / 8; ++i) y |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); r.c = (u64)y; r.h = (u64)(y >> 64); if (a.e) { Expr* e = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Expr* b = mkExtract(a.e, 8 * i, 8); e = e ? mkConcat(e, b) : b; } if (!isC(e)) r.e = e; } break; }
        case Intrinsic::abs: { Val z{0, 0, nullptr}; Val ng = bin(O_SUB, z, A(0), w); Val c = cmp(O_SLT, A(0), z, w); r = sel(c, ng, A(0)); break; }
        case Intrinsic::smax: r = sel(cmp(O_SGT, A(0), A(1), w), A(0), A(1)); break;
        case Intrinsic::smin: r = sel(cmp(O_SLT, A(0), A(1), w), A(0), A(1)); break;
        case Intrinsic::umax: r = sel(cmp(O_UGT, A(0), A(1), w), A(0), A(1)); break;
        case Intrinsic::umin: r = sel(cmp(O_ULT, A(0), A(1), w), A(0), A(1)); break;
        case Intrinsic::usub_sat: { Val z{0, 0, nullptr}; r = sel(cmp(O_ULT, A(0), A(1), w), z, bin(O_SUB, A(0), A(1), w)); break; }
        case Intrinsic::uadd_sat: { Val s = bin(O_ADD, A(0), A(1), w); u128 k = maskw(w); Val mx{(u64)k, (u64)(k >> 64), nullptr}; r = sel(cmp(O_ULT, s, A(0), w), mx, s); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (A(2).e) internal("symbolic funnel shift"); unsigned s = (unsigned)(A(2).c % w); if (ci.iid == Intrinsic::fshr) s = (w - s) % w; bool zero = A(2).c % w == 0;
            Val sh{s, 0, nullptr}, sh2{w - s, 0, nullptr}; if (zero) r = ci.iid == Intrinsic::fshl ? A(0) : A(1); else r = bin(O_OR, bin(O_SHL, A(0), sh, w), bin(O_LSHR, A(1), sh2, w), w); break;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
            unsigned aw = ci.argw; Val &a = A(0), &b = A(1); bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
            Opc op = (ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::uadd_with_overflow) ? O_ADD : (ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::usub_with_overflow) ? O_SUB : O_MUL;
            r = bin(op, a, b, aw); bool ov;
            if (aw > 64) { if (a.e || b.e) internal("wide overflow op"); u128 x = ((u128)a.h << 64) | a.c, y = ((u128)b.h << 64) | b.c; i128 s_; u128 u_; ov = sg ? (op == O_ADD ? __builtin_add_overflow((i128)x, (i128)y, &s_) : op == O_SUB ? __builtin_sub_overflow((i128)x, (i128)y, &s_) : __builtin_mul_overflow((i128)x, (i128)y, &s_)) : (op == O_ADD ? __builtin_add_overflow(x, y, &u_) : op == O_SUB ? __builtin_sub_overflow(x, y, &u_) : __builtin_mul_overflow(x, y, &u_)); }
            else if (sg) { i128 p = sxt(a.c, aw), q = sxt(b.c, aw), t = op == O_ADD ? p + q : op == O_SUB ? p - q : p * q; ov = t != sxt(r.c, aw); }
            else { u128 p = a.c, q = b.c; ov = op == O_SUB ? p < q : ((op == O_ADD ? p + q : p * q) >> aw) != 0; }
            r2.c = ov;
            if (a.e || b.e) {
                Expr *x = E(a, aw), *y = E(b, aw), *o; unsigned ww = op == O_MUL ? 2 * aw : aw + 1; if (ww > 128) internal("overflow width");
                if (sg) { Expr* t = mkBin(op == O_ADD ? E_ADD : op == O_SUB ? E_SUB : E_MUL, mkSext(x, ww), mkSext(y, ww)); o = mkNot(mkEq(t, mkSext(mkExtract(t, 0, aw), ww))); }
                else if (op == O_SUB) o = mkUlt(x, y); else { Expr* t = mkBin(op == O_ADD ? E_ADD : E_MUL, mkZext(x, ww), mkZext(y, ww)); o = mkNot(mkEq(mkExtract(t, aw, ww - aw), mkConst(ww - aw, 0))); }
                if (!isC(o)) r2.e = o;
            }
            break;
        }
        case Intrinsic::fabs: { Val& a = A(0); u64 M = w == 32 ? 0x7fffffffULL : 0x7fffffffffffffffULL; Val mk{M, 0, nullptr}; r = bin(O_AND, a, mk, w); break; }
        case Intrinsic::copysign: { u64 S = w == 32 ? 0x80000000ULL : 0x8000000000000000ULL; Val s{S, 0, nullptr}, ns{(u64)(maskw(w) & ~(u128)S), 0, nullptr}; r = bin(O_OR, bin(O_AND, A(0), ns, w), bin(O_AND, A(1), s, w), w); break; }
        case Intrinsic::is_fpclass: {
            Val& a = A(0); unsigned mask = (unsigned)A(1).c, aw = ci.argw; unsigned mb = aw == 32 ? 23 : 52;
            Expr* x = E(a, aw); Expr* sg = mkExtract(x, aw - 1, 1); Expr* ex = mkExtract(x, mb, aw - 1 - mb); Expr* ma = mkExtract(x, 0, mb); unsigned ew = aw - 1 - mb;
            Expr* exm = mkEq(ex, mkConst(ew, maskw(ew))); Expr* ex0 = mkEq(ex, mkConst(ew, 0)); Expr* ma0 = mkEq(ma, mkConst(mb, 0)); Expr* q = mkExtract(ma, mb - 1, 1); Expr* o = mkConst(1, 0);
            auto add = [&](unsigned bit, Expr* c) { if (mask & bit) o = mkBin(E_OR, o, c); };
            auto AND = [&](Expr* p, Expr* s2) { return mkBin(E_AND, p, s2); }; Expr* pos = mkNot(sg);
            add(1, AND(AND(exm, mkNot(ma0)), mkNot(q))); add(2, AND(exm, q)); Expr* inf = AND(exm, ma0); add(4, AND(inf, sg)); add(512, AND(inf, pos));
            Expr* nrm = AND(mkNot(exm), mkNot(ex0)); add(8, AND(nrm, sg)); add(256, AND(nrm, pos)); Expr* sub = AND(ex0, mkNot(ma0)); add(16, AND(sub, sg)); add(128, AND(sub, pos)); Expr* z = AND(ex0, ma0); add(32, AND(z, sg)); add(64, AND(z, pos));
            if (isC(o)) r.c = (u64)o->k; else { r.e = o; double d = toD(a.c, aw); bool s2 = (a.c >> (aw - 1)) & 1; unsigned k = std::isnan(d) ? (((a.c >> (mb - 1)) & 1) ? 2 : 1) : std::isinf(d) ? (s2 ? 4 : 512) : ((a.c >> mb) & maskw(ew)) != 0 ? (s2 ? 8 : 256) : ((a.c & maskw(mb)) ? (s2 ? 16 : 128) : (s2 ? 32 : 64)); r.c = (mask & k) != 0; }
            break;
        }
        case Intrinsic::sqrt: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::log: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fmuladd: {
            for (size_t i = 0; i < ci.args.size(); ++i) if (A(i).e) internal("symbolic floating-point argument");
            double d = toD(A(0).c, w); d = ci.iid == Intrinsic::sqrt ? (w == 32 ? (double)sqrtf((float)d) : std::sqrt(d)) : ci.iid == Intrinsic::log2 ? std::log2(d) : ci.iid == Intrinsic::log10 ? std::log10(d) : ci.iid == Intrinsic::log ? std::log(d) : ci.iid == Intrinsic::floor ? std::floor(d) : ci.iid == Intrinsic::ceil ? std::ceil(d) : d * toD(A(1).c, w) + toD(A(2).c, w);
            r.c = frD(d, w); break;
        }
        default: internal("intrinsic not supported: " + ci.fn->getName().str());
        }
        Val rv[2] = {r, r2}; retTo(rv, nr); (void)I;
    }

    // ---- main loop
    void runLoop(size_t base) {
        while (fr.size() > base) {
            Frame& F = fr.back(); Inst& I = F.f->code[F.pc];
            if (++steps > limit) viol("step limit of " + std::to_string(limit) + " instructions exceeded (no termination)");
            F.f->cov[F.pc] = 1;
            switch (I.op) {
            case O_ADD: { Val *a = V(F, I.a), *b = V(F, I.b); Val& r = regs[F.rb + I.dst]; if (!a->e && !b->e && I.w <= 64) { r.c = (a->c + b->c) & (u64)maskw(I.w); r.h = 0; r.e = nullptr; } else r = bin(O_ADD, *a, *b, I.w); ++F.pc; break; }
            case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR:
                regs[F.rb + I.dst] = bin(I.op, *V(F, I.a), *V(F, I.b), I.w); ++F.pc; break;
            case O_EQ: case O_NE: case O_ULT: case O_ULE: case O_UGT: case O_UGE: case O_SLT: case O_SLE: case O_SGT: case O_SGE:
                regs[F.rb + I.dst] = cmp(I.op, *V(F, I.a), *V(F, I.b), I.w); ++F.pc; break;
            case O_FCMP: regs[F.rb + I.dst] = fcmp(I.pred, *V(F, I.a), *V(F, I.b), I.w); ++F.pc; break;
            case O_FBIN: {
                Val a = *V(F, I.a), b = *V(F, I.b); if (a.e || b.e) internal("floating-point arithmetic on symbolic values");
                double x = toD(a.c, I.w), y = toD(b.c, I.w), z = 0;
                switch (I.pred) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
                if (I.w == 32) { float p = (float)x, q = (float)y, s = 0; switch (I.pred) { case Instruction::FAdd: s = p + q; break; case Instruction::FSub: s = p - q; break; case Instruction::FMul: s = p * q; break; case Instruction::FDiv: s = p / q; break; default: s = fmodf(p, q); } z = s; }
                regs[F.rb + I.dst] = Val{frD(z, I.w), 0, nullptr}; ++F.pc; break;
            }
            case O_FNEG: { Val s{I.w == 32 ? 0x80000000ULL : 0x8000000000000000ULL, 0, nullptr}; regs[F.rb + I.dst] = bin(O_XOR, *V(F, I.a), s, I.w); ++F.pc; break; }
            case O_ZEXT: { Val a = *V(F, I.a); if (a.e && eager && I.w2 == 1 && !a.e->taint) { a.c = branch(a); a.e = nullptr; } if (a.e) { a.e = mkZext(a.e, I.w); } regs[F.rb + I.dst] = a; ++F.pc; break; }
            case O_SEXT: { Val a = *V(F, I.a); if (a.e && eager && I.w2 == 1 && !a.e->taint) { a.c = branch(a); a.e = nullptr; } i128 v = sxt(((u128)a.h << 64) | a.c, I.w2); u128 u = (u128)v & maskw(I.w); a.c = (u64)u; a.h = (u64)(u >> 64); if (a.e) a.e = mkSext(a.e, I.w); regs[F.rb + I.dst] = a; ++F.pc; break; }
            case O_TRUNC: { Val a = *V(F, I.a); u128 u = (((u128)a.h << 64) | a.c) & maskw(I.w); a.c = (u64)u; a.h = (u64)(u >> 64); if (a.e) { a.e = mkExtract(a.e, 0, I.w); if (isC(a.e)) a.e = nullptr; } regs[F.rb + I.dst] = a; ++F.pc; break; }
            case O_MOVE: regs[F.rb + I.dst] = *V(F, I.a); ++F.pc; break;
            case O_FPCAST: {
                Val a = *V(F, I.a); if (a.e) internal("floating-point conversion of a symbolic value"); Val r{0, 0, nullptr};
                switch (I.pred) {
                case Instruction::FPExt: case Instruction::FPTrunc: r.c = frD(toD(a.c, I.w2), I.w); break;
                case Instruction::FPToSI: r.c = (u64)((i64)toD(a.c, I.w2)) & (u64)maskw(I.w); break; case Instruction::FPToUI: { double d = toD(a.c, I.w2); r.c = (d >= 9223372036854775808.0 ? (u64)(d - 9223372036854775808.0) + (1ULL << 63) : (u64)d) & (u64)maskw(I.w); break; }
                case Instruction::SIToFP: r.c = I.w == 32 ? frD((float)(i64)sxt(a.c, I.w2), 32) : frD((double)(i64)sxt(a.c, I.w2), 64); break; default: r.c = I.w == 32 ? frD((float)a.c, 32) : frD((double)a.c, 64); break;
                }
                regs[F.rb + I.dst] = r; ++F.pc; break;
            }
            case O_LOAD: {
                Val* p = V(F, I.a); u64 a = p->e ? conc(*p, 64, "address") : p->c;
                if (I.w) load(a, I.w, regs[F.rb + I.dst]);
                else { auto& lv = F.f->leaves[I.x]; for (size_t k = 0; k < lv.size(); ++k) load(a + lv[k].off, lv[k].w, regs[F.rb + I.dst + k]); }
                ++F.pc; break;
            }
            case O_STORE: {
                Val* p = V(F, I.b); u64 a = p->e ? conc(*p, 64, "address") : p->c;
                if (I.w) store(a, I.w, *V(F, I.a));
                else { auto& lv = F.f->leaves[I.x]; for (size_t k = 0; k < lv.size(); ++k) store(a + lv[k].off, lv[k].w, *V(F, Loader::slotAt(I.a, (int)k))); }
                ++F.pc; break;
            }
            case O_GEP: {
                Val* p = V(F, I.a); u64 off = F.f->consts[~I.b].c; bool sym = p->e; auto* ts = F.f->geps[I.x].data();
                u64 a = p->c + off;
                for (int k = 0; k < I.w2; ++k) { Val* v = V(F, ts[k].op); if (v->e) sym = true; a += (u64)(i64)sxt(v->c, ts[k].w) * (u64)ts[k].scale; }
                Val& r = regs[F.rb + I.dst];
                if (!sym) { r.c = a; r.h = 0; r.e = nullptr; }
                else {
                    Expr* e = mkBin(E_ADD, E(*p, 64), mkConst(64, off));
                    for (int k = 0; k < I.w2; ++k) { Val* v = V(F, ts[k].op); Expr* x = E(*v, ts[k].w); x = ts[k].w < 64 ? mkSext(x, 64) : mkExtract(x, 0, 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst(64, (u64)ts[k].scale))); }
                    r = Val{a, 0, isC(e) ? nullptr : e};
                }
                ++F.pc; break;
            }
            case O_ALLOCA: {
                Val c = F.f->consts[~I.b]; u64 n = c.c * conc(*V(F, I.a), 64, "alloca size"); u64 a = (sp + 32 + c.h - 1) / c.h * c.h; if (a + n + 32 > STK_END) viol("stack exhausted");
                memset(&flg(a), F_ADDR, n); sp = a + n; regs[F.rb + I.dst] = Val{a, 0, nullptr}; ++F.pc; break;
            }
            case O_BR: takeEdge(F, I.x); break;
            case O_CBR: { Val* c = V(F, I.a); bool o = c->e ? branch(*c) : (c->c & 1); takeEdge(F, o ? I.x : (u32)I.b); break; }
            case O_SWITCH: {
                Val c = *V(F, I.a); auto& sw = F.f->switches[I.x]; u32 tgt = (u32)I.b; u128 cv = ((u128)c.h << 64) | c.c;
                if (!c.e) { for (auto& k : sw) if (k.first == cv) { tgt = k.second; break; } }
                else { // group by target
                    std::vector<u32> done; bool found = false;
                    for (auto& k : sw) { if (std::find(done.begin(), done.end(), k.second) != done.end()) continue; done.push_back(k.second); Expr* e = mkConst(1, 0); bool o = false; u32 pc0 = F.f->edges[k.second].pc; (void)pc0;
                        for (auto& k2 : sw) if (k2.second == k.second) { e = mkBin(E_OR, e, mkEq(c.e, mkConst(I.w, k2.first))); o |= k2.first == cv; }
                        Val b{o, 0, isC(e) ? nullptr : e}; if (branch(b)) { tgt = k.second; found = true; break; } }
                    (void)found;
                }
                takeEdge(F, tgt); break;
            }
            case O_RET: {
                Val tmp[16]; int n = (int)I.x; if (n > 16) internal("large return"); for (int k = 0; k < n; ++k) tmp[k] = *V(F, Loader::slotAt(I.a, k));
                popFrame(); if (fr.size() <= base) return; retTo(tmp, n); break;
            }
            case O_UNREACH: viol("unreachable code reached");
            case O_SELECT: {
                Val* c = V(F, I.a);
                if (!c->e) { int s = (c->c & 1) ? I.b : I.c; Val t[16]; if (I.x > 16) internal("select"); for (u32 k = 0; k < I.x; ++k) t[k] = *V(F, Loader::slotAt(s, (int)k)); for (u32 k = 0; k < I.x; ++k) regs[F.rb + I.dst + k] = t[k]; }
                else {
                    Val a = *V(F, I.b), b = *V(F, I.c);
                    if (I.x != 1 || I.pred || (eager && !c->e->taint)) { bool o = branch(*c, "pointer selection"); int s = o ? I.b : I.c; Val t[16]; for (u32 k = 0; k < I.x; ++k) t[k] = *V(F, Loader::slotAt(s, (int)k)); for (u32 k = 0; k < I.x; ++k) regs[F.rb + I.dst + k] = t[k]; }
                    else { Val r = (c->c & 1) ? a : b; Expr* e = mkIte(c->e, E(a, I.w), E(b, I.w)); r.e = isC(e) ? nullptr : e; regs[F.rb + I.dst] = r; }
                }
                ++F.pc; break;
            }
            case O_COPYN: { for (u32 k = 0; k < I.x; ++k) { Val v = *V(F, Loader::slotAt(I.a, (int)k)); regs[F.rb + I.dst + k] = v; } ++F.pc; break; }
            case O_INSERT: { for (u32 k = 0; k < I.x; ++k) { bool in = (int)k >= I.c && (int)k < I.c + I.w2; Val v = in ? *V(F, Loader::slotAt(I.b, (int)k - I.c)) : *V(F, Loader::slotAt(I.a, (int)k)); regs[F.rb + I.dst + k] = v; } ++F.pc; break; }
            case O_LPAD: regs[F.rb + I.dst] = Val{lpPtr, 0, nullptr}; regs[F.rb + I.dst + 1] = Val{(u32)lpSel, 0, nullptr}; ++F.pc; break;
            case O_RESUME: { u64 p = V(F, I.a)->c; int e = findExc(p); popFrame(); if (fr.size() <= base) end(END_VIOL, "uncaught exception"); unwind(e); break; }
            case O_RMW: { u64 a = conc(*V(F, I.a), 64, "address"); Val old; load(a, I.w, old); Val nv; switch (I.pred) { case AtomicRMWInst::Add: nv = bin(O_ADD, old, *V(F, I.b), I.w); break; case AtomicRMWInst::Sub: nv = bin(O_SUB, old, *V(F, I.b), I.w); break; case AtomicRMWInst::Xchg: nv = *V(F, I.b); break; default: internal("atomicrmw"); } store(a, I.w, nv); regs[F.rb + I.dst] = old; ++F.pc; break; }
            case O_CALL: {
                CallInfo& ci = F.f->calls[I.x];
                if (ci.iid != Intrinsic::not_intrinsic) { intrinsic(F, I, ci); break; }
                if (ci.builtin >= 0) { builtin(F, I, ci); break; }
                Function* fn = ci.fn;
                if (ci.isInd) { u64 a = conc(*V(F, ci.indirect), 64, "call target"); auto it = m->byAddr.find(a); if (it == m->byAddr.end()) viol("call through an invalid function pointer"); fn = it->second->F;
                    if (fn->isDeclaration()) { auto b = builtins().find(fn->getName().str()); if (b == builtins().end()) internal("external function not modelled: " + fn->getName().str()); CallInfo c2 = ci; c2.builtin = b->second; c2.fn = fn; builtin(F, I, c2); break; } }
                if (!fn || fn->isDeclaration()) internal("external function not modelled: " + (fn ? fn->getName().str() : std::string("?")));
                FuncInfo* fi = get(fn); Val args[256]; int n = 0;
                for (size_t k = 0; k < ci.args.size(); ++k) { for (int s = 0; s < ci.args[k].second; ++s) { if (n >= 256) internal("too many arguments"); args[n++] = *V(F, Loader::slotAt(ci.args[k].first, s)); }
                    if (ci.byval[k]) { u64 sz = ci.byval[k]; u64 a = (sp + 32 + 15) & ~15ULL; memset(&flg(a), F_ADDR, sz); sp = a + sz; copyMem(a, args[n - 1].c, sz); args[n - 1] = Val{a, 0, nullptr}; } }
                push(fi, args, std::min(n, fi->nargs)); break;
            }
            default: { std::string s; raw_string_ostream os(s); I.I->print(os); internal("instruction not supported: " + s); }
            }
        }
    }

    void setModule(Mod* mm) {
        if (m == mm) return;
        if (m) memset(&flg(GLOB0), 0, m->gtop - GLOB0);
        m = mm;
    }
    void resetMem() {
        memcpy((void*)GLOB0, m->img.data(), m->img.size()); memcpy(&flg(GLOB0), m->fimg.data(), m->fimg.size());
        if (heapTop > HEAP0) memset(&flg(HEAP0), 0, heapTop - HEAP0 + 64);
        if (stkHigh > STK0) memset(&flg(STK0), 0, stkHigh - STK0);
        heapTop = HEAP0 + 64; sp = STK0 + 64; heap.clear(); liveCount = 0;
    }
    u64 stkHigh = 0;
    void callTop(Function* F, const std::vector<i64>& args) {
        FuncInfo* fi = get(F); Val a[16]; int n = 0; for (i64 x : args) { if (n >= fi->nargs) break; unsigned w = (unsigned)m->DL->getTypeSizeInBits(F->getArg(n)->getType()); a[n++] = Val{(u64)x & (u64)maskw(w), 0, nullptr}; }
        while (n < fi->nargs) a[n++] = Val{0, 0, nullptr};
        fr.clear(); push(fi, a, n); runLoop(0);
    }
    // run one path; children appended to *o
    EndKind runPath(Job& j, std::vector<Job>* o, std::string* err) {
        Task& t = tasks[j.task];
        if (curTask != (int)j.task || solver.nVars() > 60000 || pool.count > 400000) { solver.gatesDecide = t.gates; solver.reset(); pool.reset(); if (curTask != (int)j.task) taskSamples = 0; curTask = (int)j.task; }
        setModule(mods[t.mod].get()); stkHigh = std::max(stkHigh, sp); resetMem(); stkHigh = 0;
        model = j.model; nsym = 0; nundef = 0; job = &j; out = o; ev = 0; inflight = 0; eager = false; pcE.clear(); pcL.clear(); pcSet.clear(); excs.clear(); caught.clear(); obs = 1469598103934665603ULL; nobs = 0; steps = 0; limit = t.stepLimit; pathAssert = false; memset(pathCounts, 0, sizeof pathCounts);
        EndKind k = END_OK;
        try {
            for (Function* c : m->ctors) callTop(c, {});
            Function* F = m->M->getFunction(t.entry); if (!F) end(END_INTERNAL, "no entry " + t.entry);
            callTop(F, t.args);
        } catch (PathEnd& p) { k = p.k; *err = p.msg; stkHigh = sp + (1 << 16); }
        if (k == END_VIOL || k == END_INTERNAL) { stkHigh = std::min<u64>(STK_END - 64, std::max(sp, stkHigh)); }
        st.steps += steps; st.maxSteps = std::max(st.maxSteps, steps);
        if (k == END_OK) {
            ++st.paths; if (pathAssert) ++st.asserted_paths; for (int i = 0; i < 8; ++i) st.counts[i] += pathCounts[i]; ++pathNo;
            if (taskSamples < sampleMax && (taskSamples == 0 || pathNo % 37 == 0)) { ++taskSamples; model.resize(nsym); samples.push_back({j.task, model, obs, nobs}); }
        }
        else if (k == END_ASSUME) ++st.assumed;
        return k;
    }
};

// ------------------------------------------------------------------ serialization
struct Buf { std::string s; size_t p = 0;
    template<class T> void put(const T& v) { s.append((const char*)&v, sizeof v); }
    void str(const std::string& v) { put<u32>((u32)v.size()); s += v; }
    template<class T> void vec(const std::vector<T>& v) { put<u32>((u32)v.size()); s.append((const char*)v.data(), v.size() * sizeof(T)); }
    template<class T> T get() { T v; memcpy(&v, &s[p], sizeof v); p += sizeof v; return v; }
    std::string gstr() { u32 n = get<u32>(); std::string r = s.substr(p, n); p += n; return r; }
    template<class T> std::vector<T> gvec() { u32 n = get<u32>(); std::vector<T> v(n); if (n) memcpy(v.data(), &s[p], n * sizeof(T)); p += n * sizeof(T); return v; } };
static void putJob(Buf& b, const Job& j) { b.put(j.task); b.put(j.bound); b.put(j.expect); b.vec(j.excl); b.vec(j.model); }
static Job getJob(Buf& b) { Job j; j.task = b.get<u32>(); j.bound = b.get<u32>(); j.expect = b.get<u8>(); j.excl = b.gvec<u64>(); j.model = b.gvec<u8>(); return j; }
static bool wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool sendBuf(int fd, const Buf& b) { u64 n = b.s.size(); return wr(fd, &n, 8) && wr(fd, b.s.data(), n); }
static bool recvBuf(int fd, Buf& b) { u64 n; if (!rd(fd, &n, 8)) return false; b.s.resize(n); b.p = 0; return rd(fd, &b.s[0], n); }

static void functionsOf(std::set<std::string>& names, std::map<std::string, std::set<int>>& lines) {
    for (auto& mp : mods) if (mp) for (auto& [F, fi] : mp->fi) if (fi->decoded) for (size_t i = 0; i < fi->code.size(); ++i) if (fi->cov[i]) {
        const DILocation* L = fi->code[i].I->getDebugLoc();
        for (; L; L = L->getInlinedAt()) {
            StringRef fn = L->getFilename(); if (!fn.contains("cpp-sort/")) continue;
            if (L->getLine()) lines[fn.str()].insert(L->getLine());
            if (DISubprogram* S = L->getScope()->getSubprogram()) names.insert(S->getName().str() + " (" + fn.substr(fn.rfind("cpp-sort/") + 9).str() + ")");
        }
    }
}

static void workerMain(int in, int outfd, double slice, bool cov) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Engine E; E.regs.assign(4u << 20, Val{0, 0, nullptr}); E.heapTop = HEAP0; E.sp = STK0;
    mods.resize(modPaths.size());
    Buf b;
    while (recvBuf(in, b)) {
        u8 cmd = b.get<u8>();
        if (cmd == 0) break;
        std::vector<Job> stack; u32 n = b.get<u32>(); for (u32 i = 0; i < n; ++i) stack.push_back(getJob(b));
        double sl = b.get<double>();
        E.st = Stats(); E.viols.clear(); E.samples.clear(); std::string internalErr; u32 task = stack[0].task;
        int mi = tasks[task].mod; if (!mods[mi]) { mods[mi] = std::make_unique<Mod>(); Loader l(*mods[mi]); l.load(modPaths[mi]); }
        double t0 = now(); bool stop = false;
        while (!stack.empty() && !stop) {
            Job j = std::move(stack.back()); stack.pop_back(); std::string err; std::vector<Job> kids;
            EndKind k = E.runPath(j, &kids, &err);
            for (auto& c : kids) stack.push_back(std::move(c));
            if (k == END_VIOL) { E.model.resize(E.nsym); E.viols.push_back({task, err, E.model}); stop = true; }
            if (k == END_INTERNAL) { internalErr = err; stop = true; }
            if (now() - t0 > (sl > 0 ? sl : slice)) break;
        }
        Buf r; r.put<u32>(task); r.put(E.st); r.put<u8>(stop); r.str(internalErr);
        r.put<u32>((u32)E.viols.size()); for (auto& v : E.viols) { r.str(v.msg); r.vec(v.model); }
        r.put<u32>((u32)E.samples.size()); for (auto& s : E.samples) { r.vec(s.model); r.put(s.obs); r.put(s.nobs); }
        if (stop) stack.clear();
        r.put<u32>((u32)stack.size()); for (auto& j : stack) putJob(r, j);
        r.put<double>(now() - t0);
        if (!sendBuf(outfd, r)) break;
    }
    Buf r; std::set<std::string> names; std::map<std::string, std::set<int>> lines; functionsOf(names, lines);
    r.put<u32>((u32)names.size()); for (auto& s : names) r.str(s);
    if (!cov) lines.clear();
    else for (auto& mp : mods) if (mp && mp->M) for (Function& F : *mp->M) for (BasicBlock& B : F) for (Instruction& I : B) for (const DILocation* L = I.getDebugLoc(); L; L = L->getInlinedAt()) if (L->getFilename().contains("cpp-sort/") && L->getLine()) lines["!" + L->getFilename().str()].insert(L->getLine());
    r.put<u32>((u32)lines.size()); for (auto& [f, s] : lines) { r.str(f); std::vector<int> v(s.begin(), s.end()); r.vec(v); }
    sendBuf(outfd, r);
    _exit(0);
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string hexs(const std::vector<u8>& v) { std::string s; char b[3]; for (u8 x : v) { snprintf(b, 3, "%02x", x); s += b; } return s; }

int main(int argc, char** argv) {
    std::string taskFile, outFile; int nw = 8; double deadline = 300, slice = 0.7; bool cov = false, stopFirst = true; int maxViol = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--tasks") taskFile = nx(); else if (a == "--out") outFile = nx(); else if (a == "--jobs") nw = stoi(nx()); else if (a == "--deadline") deadline = stod(nx());
        else if (a == "--slice") slice = stod(nx()); else if (a == "--cov") cov = true; else if (a == "--keep-going") stopFirst = false; else if (a == "--max-viol") maxViol = stoi(nx()); else if (a == "--xchk") xchkEvery = stoi(nx()); else if (a == "--conf") confBudget = stoll(nx()); else if (a == "--verbose") verbose = true; else if (a == "--samples") sampleMax = stoi(nx());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    // task file: "M path" lines, then "T mod entry steplimit gates name nargs args..."
    { std::ifstream f(taskFile); std::string line; while (std::getline(f, line)) { std::istringstream is(line); std::string k; is >> k; if (k == "M") { std::string p; is >> p; modPaths.push_back(p); } else if (k == "T") { Task t; int n; is >> t.mod >> t.entry >> t.stepLimit >> t.gates >> t.name >> n; for (int i = 0; i < n; ++i) { i64 x; is >> x; t.args.push_back(x); } tasks.push_back(t); } } }
    if (mmap((void*)BASE, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)BASE) { perror("mmap"); return 2; }
    FL = (u8*)mmap(nullptr, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH = (u64*)mmap(nullptr, RSIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (FL == MAP_FAILED || SH == MAP_FAILED) { perror("mmap"); return 2; }
    signal(SIGPIPE, SIG_IGN);
    struct W { int in, out; pid_t pid; bool busy = false; int mod = -1, task = -1; bool dead = false; double since = 0; };
    std::vector<W> ws;
    for (int i = 0; i < nw; ++i) {
        int p[2], q[2]; if (pipe(p) || pipe(q)) return 2; pid_t pid = fork();
        if (pid == 0) { for (auto& w : ws) { close(w.in); close(w.out); } close(p[1]); close(q[0]); workerMain(p[0], q[1], slice, cov); }
        close(p[0]); close(q[1]); W w; w.in = p[1]; w.out = q[0]; w.pid = pid; ws.push_back(w);
    }
    size_t NT = tasks.size(); std::vector<std::vector<Job>> pend(NT); std::vector<Stats> stat(NT); std::vector<double> cpu(NT, 0), doneAt(NT, -1); std::vector<int> out(NT, 0); std::vector<std::string> ierr(NT); std::vector<bool> halted(NT, false); std::vector<int> nviol(NT, 0);
    std::vector<Viol> viols; std::vector<Sample> samples;
    for (size_t i = 0; i < NT; ++i) pend[i].push_back(Job{(u32)i, 0, 0, {}, {}});
    double t0 = now(); bool abortAll = false; int totalViol = 0; size_t rr = 0;
    auto pick = [&](W& w) -> int {
        // breadth first: untouched tasks, preferring the worker's module, then the task with the most pending jobs
        int best = -1; bool bm = false;
        for (size_t i = 0; i < NT; ++i) if (!pend[i].empty() && out[i] == 0 && !halted[i] && cpu[i] == 0) { bool same = tasks[i].mod == w.mod; if (best < 0 || (same && !bm)) { best = (int)i; bm = same; if (bm) break; } }
        if (best >= 0) return best;
        double bs = -1;
        for (size_t k = 0; k < NT; ++k) { size_t i = (k + rr) % NT; if (pend[i].empty() || halted[i]) continue; double s = (tasks[i].mod == w.mod ? 2.0 : 1.0) / (1 + out[i]) * (1 + (w.task == (int)i)); if (s > bs) { bs = s; best = (int)i; } }
        ++rr; return best;
    };
    bool timeup = false;
    while (true) {
        timeup = now() - t0 > deadline;
        int busy = 0;
        for (auto& w : ws) if (!w.busy && !w.dead && !timeup && !abortAll) {
            int t = pick(w); if (t < 0) continue;
            size_t n = pend[t].size(); size_t take = out[t] == 0 && n <= 1 ? n : std::max<size_t>(1, std::min<size_t>(n, (n + nw - 1) / nw));
            Buf b; b.put<u8>(1); b.put<u32>((u32)take); for (size_t k = 0; k < take; ++k) { putJob(b, pend[t].back()); pend[t].pop_back(); }
            size_t totalPend = 0; for (auto& p : pend) totalPend += p.size();
            double sl = totalPend < (size_t)nw ? 0.1 : slice; b.put<double>(sl);
            if (!sendBuf(w.in, b)) { w.dead = true; ierr[t] = "worker died"; continue; }
            w.busy = true; w.mod = tasks[t].mod; w.task = t; w.since = now(); out[t]++;
        }
        std::vector<pollfd> pf; std::vector<int> id; for (size_t i = 0; i < ws.size(); ++i) if (ws[i].busy && !ws[i].dead) { pf.push_back({ws[i].out, POLLIN, 0}); id.push_back((int)i); ++busy; }
        if (!busy) break;
        poll(pf.data(), pf.size(), 500);
        for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents) {
            W& w = ws[id[k]]; Buf r; w.busy = false; int t = w.task; out[t]--;
            if (!recvBuf(w.out, r)) { w.dead = true; ierr[t] = "worker died (crash or memory)"; halted[t] = true; pend[t].clear(); continue; }
            u32 task = r.get<u32>(); Stats s = r.get<Stats>(); u8 stop = r.get<u8>(); std::string ie = r.gstr(); Stats& T = stat[task];
            T.paths += s.paths; T.assumed += s.assumed; T.events += s.events; T.asserts += s.asserts; T.queries += s.queries; T.steps += s.steps; T.unknown += s.unknown; T.infeasible += s.infeasible; T.xchk += s.xchk; T.maxSteps = std::max(T.maxSteps, s.maxSteps); T.asserted_paths += s.asserted_paths; T.tsolve += s.tsolve; for (int i = 0; i < 8; ++i) T.counts[i] += s.counts[i];
            if (!ie.empty()) { ierr[task] = ie; halted[task] = true; pend[task].clear(); }
            u32 nv = r.get<u32>(); for (u32 i = 0; i < nv; ++i) { Viol v; v.task = task; v.msg = r.gstr(); v.model = r.gvec<u8>(); if (nviol[task]++ == 0) { viols.push_back(v); ++totalViol; } }
            u32 ns = r.get<u32>(); for (u32 i = 0; i < ns; ++i) { Sample x; x.task = task; x.model = r.gvec<u8>(); x.obs = r.get<u64>(); x.nobs = r.get<u32>(); samples.push_back(x); }
            u32 nj = r.get<u32>(); for (u32 i = 0; i < nj; ++i) { Job j = getJob(r); if (!stop && !halted[task]) pend[task].push_back(std::move(j)); }
            cpu[task] += r.get<double>();
            if (stop) { halted[task] = true; pend[task].clear(); }
            if (pend[task].empty() && out[task] == 0) doneAt[task] = now() - t0;
            if (stopFirst && totalViol >= maxViol) abortAll = true;
        }
        // a worker stuck in one path far beyond the deadline is killed
        for (auto& w : ws) if (w.busy && !w.dead && now() - t0 > deadline + 30) { fprintf(stderr, "stuck in %s\n", tasks[w.task].name.c_str()); kill(w.pid, SIGKILL); w.dead = true; w.busy = false; ierr[w.task] = ierr[w.task].empty() ? "" : ierr[w.task]; out[w.task]--; pend[w.task].push_back(Job{(u32)w.task, 0, 0, {}, {}}); }
    }
    std::set<std::string> names; std::map<std::string, std::set<int>> lines;
    for (auto& w : ws) if (!w.dead) { Buf b; b.put<u8>(0); if (!sendBuf(w.in, b)) continue; Buf r; if (!recvBuf(w.out, r)) continue; u32 n = r.get<u32>(); for (u32 i = 0; i < n; ++i) names.insert(r.gstr()); n = r.get<u32>(); for (u32 i = 0; i < n; ++i) { std::string f = r.gstr(); for (int l : r.gvec<int>()) lines[f].insert(l); } }
    for (auto& w : ws) { close(w.in); int stt; waitpid(w.pid, &stt, 0); }
    std::ofstream o(outFile); o << "{\"wall\": " << now() - t0 << ", \"tasks\": [\n";
    for (size_t i = 0; i < NT; ++i) {
        Stats& s = stat[i]; bool complete = pend[i].empty() && !halted[i] && ierr[i].empty() && s.unknown == 0;
        o << (i ? ",\n" : "") << "{\"name\": \"" << jesc(tasks[i].name) << "\", \"complete\": " << (complete ? "true" : "false") << ", \"paths\": " << s.paths << ", \"assumed\": " << s.assumed << ", \"events\": " << s.events << ", \"asserts\": " << s.asserts << ", \"asserted_paths\": " << s.asserted_paths
          << ", \"queries\": " << s.queries << ", \"infeasible\": " << s.infeasible << ", \"unknown\": " << s.unknown << ", \"xchk\": " << s.xchk << ", \"steps\": " << s.steps << ", \"max_steps\": " << s.maxSteps << ", \"tsolve\": " << s.tsolve << ", \"cpu\": " << cpu[i] << ", \"pending\": " << pend[i].size() << ", \"counts\": [";
        for (int k = 0; k < 8; ++k) o << (k ? "," : "") << s.counts[k];
        o << "], \"error\": \"" << jesc(ierr[i]) << "\"}";
    }
    o << "],\n\"violations\": [";
    for (size_t i = 0; i < viols.size(); ++i) o << (i ? ",\n" : "") << "{\"task\": " << viols[i].task << ", \"msg\": \"" << jesc(viols[i].msg) << "\", \"model\": \"" << hexs(viols[i].model) << "\"}";
    o << "],\n\"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n" : "") << "{\"task\": " << samples[i].task << ", \"model\": \"" << hexs(samples[i].model) << "\", \"obs\": " << samples[i].obs << ", \"nobs\": " << samples[i].nobs << "}";
    o << "],\n\"functions\": ["; { bool f = true; for (auto& s : names) { o << (f ? "" : ",\n") << "\"" << jesc(s) << "\""; f = false; } }
    o << "],\n\"lines\": {"; { bool f = true; for (auto& [n, s] : lines) { o << (f ? "" : ",\n") << "\"" << jesc(n) << "\": ["; bool g = true; for (int l : s) { o << (g ? "" : ",") << l; g = false; } o << "]"; f = false; } }
    o << "}}\n";
    return 0;
}
