// symex: bounded symbolic execution of LLVM IR, path by path.
//
// Every path of the program is executed with concrete values plus symbolic
// expressions over the inputs. At each branch depending on inputs the SMT
// solver (Z3) decides if the other side is possible for some input; if yes,
// the input found by the solver is queued. When the queue is empty, all paths
// are covered for all input values. At each assertion, the solver decides if
// any input following this path violates it.
#include "expr.h"
#include "code.h"
#include <sys/mman.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <math.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <deque>

using namespace llvm;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options
static std::string optFunc, optRepo = "/repo", optOut;
static int optJobs = 8;
static double optTimeout = 300;
static uint64_t optMaxInst = 3000000;
static int optMaxViol = 20, optPerDesc = 3, optVerbose = 0, optConcMax = 80;
static uint64_t optMemMB = 3000;
static bool optTrace = false;

// ------------------------------------------------------------------ program
static std::vector<Func> funcs;
static std::map<std::string, int> funcNo;
static std::vector<GlobalObj> globals;
static std::map<const Value*, uint64_t> gaddr;
static std::vector<std::string> files;
static std::map<std::string,int> fileNo;
static const DataLayout* DL;
static const uint64_t FBASE = 0x1000, GBASE = 0x100000, HBASE = 0x10000000;

enum Builtin {
    B_NONE = -1, B_ND, B_SYM_ND, B_ASSUME, B_PROP, B_REACHED, B_STOP, B_CONC, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE,
    B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ASSERT, B_ABORT, B_IGNORE0, B_VASTART, B_VAEND, B_VACOPY, B_NOP,
    B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_FMA, B_EXPECT, B_MATH1, B_MATH2, B_GETTIME, B_GETENV, B_STACKSAVE,
    B_OBJSIZE, B_STRLEN, B_ISSYM, B_FMTDOUBLE, B_ARRAYEND, B_BSWAP, B_CTPOP, B_CONEW, B_COSWITCH
};
static const std::map<std::string,int> builtins = {
    {"nd", B_ND}, {"sym_nd", B_SYM_ND}, {"verif_assume", B_ASSUME}, {"verif_prop", B_PROP}, {"verif_reached", B_REACHED},
    {"verif_stop", B_STOP}, {"sym_concretize", B_CONC}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
    {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"__assert_fail", B_ASSERT},
    {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"_Exit", B_ABORT}, {"sym_objsize", B_OBJSIZE}, {"sym_is", B_ISSYM},
    {"sym_fmt_double", B_FMTDOUBLE}, {"sym_co_new", B_CONEW}, {"sym_co_switch", B_COSWITCH},
    {"printf", B_IGNORE0}, {"fprintf", B_IGNORE0}, {"vfprintf", B_IGNORE0}, {"puts", B_IGNORE0}, {"putchar", B_IGNORE0}, {"fflush", B_IGNORE0},
    {"fputs", B_IGNORE0}, {"fputc", B_IGNORE0}, {"fwrite", B_IGNORE0}, {"fclose", B_IGNORE0}, {"setvbuf", B_IGNORE0},
    {"usleep", B_IGNORE0}, {"gettimeofday", B_GETTIME}, {"getenv", B_GETENV}, {"secure_getenv", B_GETENV},
    {"sqrt", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"fabs", B_MATH1}, {"log", B_MATH1}, {"log2", B_MATH1}, {"cbrt", B_MATH1},
    {"round", B_MATH1}, {"exp", B_MATH1}, {"trunc", B_MATH1},
    {"pow", B_MATH2}, {"fmod", B_MATH2}, {"fmax", B_MATH2}, {"fmin", B_MATH2},
};

static int fileIdx(const std::string& f)
{
    auto it = fileNo.find(f);
    if (it != fileNo.end()) return it->second;
    files.push_back(f);
    return fileNo[f] = files.size() - 1;
}

struct Leaf { uint64_t off; unsigned w; };
static void leaves(Type* t, uint64_t off, std::vector<Leaf>& out)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
    }
    else if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for(unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
    }
    else out.push_back({off, (unsigned) DL->getTypeSizeInBits(t)});
}
static unsigned leafIndex(Type* t, ArrayRef<unsigned> path)
{
    unsigned n = 0;
    for(unsigned p : path) {
        if (auto* st = dyn_cast<StructType>(t)) {
            for(unsigned i = 0; i < p; i++) { std::vector<Leaf> l; leaves(st->getElementType(i), 0, l); n += l.size(); }
            t = st->getElementType(p);
        }
        else {
            auto* at = cast<ArrayType>(t);
            std::vector<Leaf> l; leaves(at->getElementType(), 0, l); n += l.size() * p;
            t = at->getElementType();
        }
    }
    return n;
}

static bool constVal(const Constant* c, uint64_t& v)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) return false;
        v = ci->getZExtValue();
        return true;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (cf->getType()->isDoubleTy() || cf->getType()->isFloatTy()) { v = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
        return false;
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { v = 0; return true; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), v);
    if (isa<GlobalValue>(c)) {
        auto it = gaddr.find(c);
        if (it == gaddr.end()) return false;
        v = it->second;
        return true;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            uint64_t b;
            if (!g->accumulateConstantOffset(*DL, off)) return false;
            if (!constVal(cast<Constant>(g->getPointerOperand()), b)) return false;
            v = b + off.getZExtValue();
            return true;
        }
        if (ce->isCast()) {
            uint64_t b;
            if (!constVal(ce->getOperand(0), b)) return false;
            unsigned w = DL->getTypeSizeInBits(ce->getType()), sw = DL->getTypeSizeInBits(ce->getOperand(0)->getType());
            if (ce->getOpcode() == Instruction::SExt) b = sgn(b, sw);
            v = b & maskw(w);
            return true;
        }
        if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
            uint64_t x, y;
            if (!constVal(ce->getOperand(0), x) || !constVal(ce->getOperand(1), y)) return false;
            v = (ce->getOpcode() == Instruction::Sub ? x - y : x + y) & maskw(DL->getTypeSizeInBits(ce->getType()));
            return true;
        }
    }
    return false;
}

static void initBytes(const Constant* c, std::vector<uint8_t>& b, uint64_t off)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for(unsigned i = 0; i < cd->getNumElements(); i++) initBytes(cd->getElementAsConstant(i), b, off + i * es);
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), b, off + sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for(unsigned i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), b, off + i * es);
        return;
    }
    uint64_t v;
    if (!constVal(c, v)) { fprintf(stderr, "symex: unsupported initializer\n"); return; }
    unsigned n = DL->getTypeStoreSize(t);
    for(unsigned i = 0; i < n && i < 8; i++) b[off + i] = v >> (8 * i);
}

struct FuncCompiler {
    Func& f;
    const Function& F;
    std::map<const Value*, int> reg;
    std::map<const BasicBlock*, int> bpc;
    std::vector<std::tuple<int,int,const BasicBlock*,const BasicBlock*>> fix; // inst, edge, target, from
    int curFile = -1;

    FuncCompiler(Func& f, const Function& F): f(f), F(F) {}

    int regOf(const Value* v)
    {
        auto it = reg.find(v);
        if (it != reg.end()) return it->second;
        int r = f.nregs++;
        reg[v] = r;
        return r;
    }
    bool bad = false;
    Opnd op(const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) {
            uint64_t k;
            if (c->getType()->isAggregateType()) { bad = true; return {-1, 0}; }
            if (!constVal(c, k)) { bad = true; return {-1, 0}; }
            return {-1, k};
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { bad = true; return {-1,0}; }
        return {regOf(v), 0};
    }
    unsigned width(Type* t) { return DL->getTypeSizeInBits(t); }
    bool okType(Type* t)
    {
        if (t->isVoidTy()) return true;
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isPointerTy() || t->isDoubleTy() || t->isFloatTy();
    }

    void compile()
    {
        if (auto* sp = F.getSubprogram()) {
            std::string d = sp->getDirectory().str(), n = sp->getFilename().str();
            f.file = (n.size() && n[0] == '/') ? n : d + "/" + n;
            curFile = fileIdx(f.file);
            f.inRepo = f.file.compare(0, optRepo.size() + 1, optRepo + "/") == 0;
        }
        for(auto& a : F.args()) regOf(&a);
        f.nargs = F.arg_size();
        for(auto& B : F) {
            bpc[&B] = f.code.size();
            for(auto& I : B) inst(I);
        }
        for(auto& x : fix) {
            Edge& e = f.code[std::get<0>(x)].edges[std::get<1>(x)];
            const BasicBlock* t = std::get<2>(x);
            e.pc = bpc[t];
            for(auto& I : *t) {
                auto* p = dyn_cast<PHINode>(&I);
                if (!p) break;
                const Value* v = p->getIncomingValueForBlock(std::get<3>(x));
                bad = false;
                Opnd o = op(v);
                if (bad) { fprintf(stderr, "symex: unsupported phi operand in %s\n", f.name.c_str()); }
                e.copies.push_back({regOf(p), o});
            }
        }
    }
    void unsup(const Instruction& I, const char* why)
    {
        Inst n; n.op = I_UNSUP;
        std::string s; raw_string_ostream os(s); I.print(os);
        n.text = strdup((std::string(why) + ": " + os.str()).c_str());
        f.code.push_back(n);
    }
    void inst(const Instruction& I)
    {
        if (isa<PHINode>(I)) return;
        if (isa<DbgInfoIntrinsic>(I)) return;
        Inst n;
        n.file = curFile;
        if (auto& dl = I.getDebugLoc()) n.line = dl.getLine();
        bad = false;
        Type* T = I.getType();
        if (!T->isVoidTy()) n.dst = regOf(&I);
        bool agg = T->isAggregateType();
        if (!agg && !okType(T)) { unsup(I, "type"); return; }
        if (!T->isVoidTy() && !agg) n.w = width(T);
        switch(I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            n.op = I_BIN;
            static const std::map<unsigned, Op> m = {
                {Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV},
                {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR},
                {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
            n.sub = m.at(I.getOpcode());
            n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1));
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            n.op = I_FBIN; n.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 :
                I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
            n.isFloat = T->isFloatTy();
            n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1));
            break;
        case Instruction::FNeg:
            n.op = I_FNEG; n.isFloat = T->isFloatTy(); n.a = op(I.getOperand(0)); break;
        case Instruction::ICmp: {
            auto& c = cast<ICmpInst>(I);
            n.op = I_ICMP; n.sub = c.getPredicate(); n.w2 = width(c.getOperand(0)->getType());
            n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1));
            break;
        }
        case Instruction::FCmp: {
            auto& c = cast<FCmpInst>(I);
            n.op = I_FCMP; n.sub = c.getPredicate(); n.isFloat = c.getOperand(0)->getType()->isFloatTy();
            if (!okType(c.getOperand(0)->getType())) { unsup(I, "type"); return; }
            n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1));
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
            n.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC;
            n.w2 = width(I.getOperand(0)->getType());
            if (!okType(I.getOperand(0)->getType())) { unsup(I, "type"); return; }
            n.a = op(I.getOperand(0));
            break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            unsigned sw = width(I.getOperand(0)->getType());
            n.w2 = sw;
            n.op = n.w < sw ? I_TRUNC : n.w > sw ? I_ZEXT : I_MOV;
            n.a = op(I.getOperand(0));
            break;
        }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
            n.op = I_MOV; n.a = op(I.getOperand(0)); break;
        case Instruction::FPToSI: case Instruction::FPToUI:
            n.op = I.getOpcode() == Instruction::FPToSI ? I_FP2SI : I_FP2UI;
            n.isFloat = I.getOperand(0)->getType()->isFloatTy();
            if (!okType(I.getOperand(0)->getType())) { unsup(I, "type"); return; }
            n.a = op(I.getOperand(0)); break;
        case Instruction::SIToFP: case Instruction::UIToFP:
            n.op = I.getOpcode() == Instruction::SIToFP ? I_SI2FP : I_UI2FP;
            n.isFloat = T->isFloatTy(); n.w2 = width(I.getOperand(0)->getType());
            n.a = op(I.getOperand(0)); break;
        case Instruction::FPExt: case Instruction::FPTrunc:
            n.op = I_FPCVT; n.isFloat = T->isFloatTy();
            if (!okType(I.getOperand(0)->getType())) { unsup(I, "type"); return; }
            n.a = op(I.getOperand(0)); break;
        case Instruction::Select:
            n.op = I_SELECT;
            n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1)); n.c = op(I.getOperand(2));
            n.agg = agg;
            break;
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            n.op = I_GEP;
            n.a = op(g.getPointerOperand());
            int64_t off = 0;
            for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* ix = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) {
                    off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    continue;
                }
                uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t) es;
                else { n.idx.push_back({op(ix), es}); n.idxw.push_back(width(ix->getType())); }
            }
            n.imm = off;
            break;
        }
        case Instruction::Load:
            n.op = I_LOAD; n.a = op(I.getOperand(0)); n.agg = agg; n.ty = T; break;
        case Instruction::Store: {
            n.op = I_STORE;
            Type* vt = I.getOperand(0)->getType();
            n.agg = vt->isAggregateType(); n.ty = vt;
            if (!n.agg && !okType(vt)) { unsup(I, "type"); return; }
            if (!n.agg) n.w = width(vt);
            n.a = op(I.getOperand(1)); n.b = op(I.getOperand(0));
            break;
        }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            n.op = I_ALLOCA; n.imm = DL->getTypeAllocSize(a.getAllocatedType());
            n.a = op(a.getArraySize());
            n.w2 = width(a.getArraySize()->getType());
            break;
        }
        case Instruction::Ret:
            n.op = I_RET;
            if (I.getNumOperands()) { n.a = op(I.getOperand(0)); n.sub = 1; n.agg = I.getOperand(0)->getType()->isAggregateType(); }
            break;
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isConditional()) {
                n.op = I_CONDBR; n.a = op(b.getCondition()); n.edges.resize(2);
                fix.push_back({(int) f.code.size(), 0, b.getSuccessor(0), I.getParent()});
                fix.push_back({(int) f.code.size(), 1, b.getSuccessor(1), I.getParent()});
            }
            else {
                n.op = I_BR; n.edges.resize(1);
                fix.push_back({(int) f.code.size(), 0, b.getSuccessor(0), I.getParent()});
            }
            break;
        }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            n.op = I_SWITCH; n.a = op(s.getCondition()); n.w2 = width(s.getCondition()->getType());
            n.edges.resize(1 + s.getNumCases());
            fix.push_back({(int) f.code.size(), 0, s.getDefaultDest(), I.getParent()});
            int k = 1;
            for(auto& c : s.cases()) {
                n.cases.push_back(c.getCaseValue()->getZExtValue());
                fix.push_back({(int) f.code.size(), k++, c.getCaseSuccessor(), I.getParent()});
            }
            break;
        }
        case Instruction::ExtractValue: {
            auto& e = cast<ExtractValueInst>(I);
            n.op = I_EXTRACTV; n.a = op(e.getAggregateOperand()); n.imm = leafIndex(e.getAggregateOperand()->getType(), e.getIndices());
            if (agg) { unsup(I, "aggregate"); return; }
            break;
        }
        case Instruction::InsertValue: {
            auto& e = cast<InsertValueInst>(I);
            n.op = I_INSERTV;
            if (e.getInsertedValueOperand()->getType()->isAggregateType()) { unsup(I, "aggregate"); return; }
            n.ty = T;
            if (isa<UndefValue>(e.getAggregateOperand())) n.a = {-1, 0};
            else n.a = op(e.getAggregateOperand());
            n.b = op(e.getInsertedValueOperand()); n.imm = leafIndex(T, e.getIndices());
            break;
        }
        case Instruction::Unreachable: n.op = I_UNREACH; break;
        case Instruction::Call: {
            auto& c = cast<CallInst>(I);
            if (c.isInlineAsm()) { unsup(I, "asm"); return; }
            n.op = I_CALL;
            const Function* cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCastsAndAliases());
            if (cf && cf->isIntrinsic() && isa<LifetimeIntrinsic>(I)) return;
            if (cf) n.callee = funcNo.at(cf->getName().str());
            else n.a = op(c.getCalledOperand());
            for(unsigned i = 0; i < c.arg_size(); i++) {
                Value* v = c.getArgOperand(i);
                if (v->getType()->isMetadataTy()) { return; }
                if (!okType(v->getType())) { unsup(I, "argument type"); return; }
                n.args.push_back(op(v));
                n.argw.push_back(width(v->getType()));
                n.byval.push_back(c.isByValArgument(i) ? (uint64_t) DL->getTypeAllocSize(c.getParamByValType(i)) : 0);
            }
            break;
        }
        default: unsup(I, "instruction"); return;
        }
        if (bad) { unsup(I, "operand"); return; }
        f.code.push_back(n);
    }
};

static void compileModule(Module& M)
{
    DL = &M.getDataLayout();
    for(auto& F : M) {
        int n = funcs.size();
        funcs.emplace_back();
        Func& f = funcs.back();
        f.name = F.getName().str();
        f.defined = !F.isDeclaration();
        f.vararg = F.isVarArg();
        f.retw = F.getReturnType()->isVoidTy() || !F.getReturnType()->isSized() ? 0 :
                 F.getReturnType()->isAggregateType() ? 0 : (int) DL->getTypeSizeInBits(F.getReturnType());
        funcNo[f.name] = n;
        gaddr[&F] = FBASE + 16 * n;
        auto it = builtins.find(f.name);
        if (it != builtins.end() && !f.defined) f.builtin = it->second;
        // the engine's own functions always win
        if (f.name == "malloc" || f.name == "calloc" || f.name == "realloc" || f.name == "free") f.builtin = it->second, f.defined = false;
        if (F.isIntrinsic()) {
            auto pre = [&](const char* p) { return f.name.compare(0, strlen(p), p) == 0; };
            if (pre("llvm.memcpy")) f.builtin = B_MEMCPY;
            else if (pre("llvm.memmove")) f.builtin = B_MEMMOVE;
            else if (pre("llvm.memset")) f.builtin = B_MEMSET;
            else if (pre("llvm.va_start")) f.builtin = B_VASTART;
            else if (pre("llvm.va_end")) f.builtin = B_NOP;
            else if (pre("llvm.va_copy")) f.builtin = B_VACOPY;
            else if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.assume") || pre("llvm.stackrestore") || pre("llvm.prefetch") || pre("llvm.experimental.noalias")) f.builtin = B_NOP;
            else if (pre("llvm.stacksave")) f.builtin = B_STACKSAVE;
            else if (pre("llvm.umin")) f.builtin = B_UMIN;
            else if (pre("llvm.umax")) f.builtin = B_UMAX;
            else if (pre("llvm.smin")) f.builtin = B_SMIN;
            else if (pre("llvm.smax")) f.builtin = B_SMAX;
            else if (pre("llvm.abs")) f.builtin = B_ABS;
            else if (pre("llvm.fmuladd") || pre("llvm.fma.")) f.builtin = B_FMA;
            else if (pre("llvm.expect")) f.builtin = B_EXPECT;
            else if (pre("llvm.trap")) f.builtin = B_ABORT;
            else if (pre("llvm.bswap")) f.builtin = B_BSWAP;
            else if (pre("llvm.ctpop")) f.builtin = B_CTPOP;
            else if (pre("llvm.fabs.f64") || pre("llvm.floor.f64") || pre("llvm.ceil.f64") || pre("llvm.sqrt.f64") || pre("llvm.round.f64") || pre("llvm.trunc.f64")) f.builtin = B_MATH1;
        }
    }
    uint64_t a = GBASE;
    std::vector<const GlobalVariable*> gv;
    for(auto& G : M.globals()) {
        if (!G.getValueType()->isSized()) continue;
        uint64_t sz = DL->getTypeAllocSize(G.getValueType());
        if (G.isDeclaration() && sz < 64) sz = 64;
        a = (a + 63) & ~63ULL;
        gaddr[&G] = a;
        globals.push_back({G.getName().str(), a, sz, {}, G.isConstant()});
        gv.push_back(&G);
        a += sz + 64;
    }
    if (a > HBASE) { fprintf(stderr, "symex: globals too large\n"); exit(3); }
    for(size_t i = 0; i < gv.size(); i++) {
        globals[i].init.assign(globals[i].size, 0);
        if (gv[i]->hasInitializer()) initBytes(gv[i]->getInitializer(), globals[i].init, 0);
    }
    for(auto& F : M) {
        Func& f = funcs[funcNo[F.getName().str()]];
        if (f.defined && f.builtin < 0) {
            FuncCompiler c(f, F);
            c.compile();
        }
    }
}

// ------------------------------------------------------------------ execution
struct Val { uint64_t c; Expr* e; };
struct SymByte { Expr* e; uint32_t idx; };

struct Obj {
    uint64_t addr, size;
    uint8_t* data; SymByte* sym;
    uint8_t state;   // 1 alive, 2 freed, 3 dead stack
    uint8_t kind;    // 0 global, 1 stack, 2 heap
    bool dirty, cst;
    int gidx;
};

struct Item {
    std::vector<uint64_t> in;
    uint32_t bound = 0;
    std::vector<uint64_t> excl;
    std::vector<uint8_t> implied;
};

struct Violation { std::string desc, loc, stack; std::vector<int64_t> inputs; };
struct Stats {
    uint64_t paths = 0, done = 0, stopped = 0, decisions = 0, branches = 0, queries = 0, cached = 0, insts = 0, props = 0, discharged = 0,
        unknown = 0, errors = 0, violpaths = 0, concs = 0;
    double solver = 0;
};
struct Sample { std::vector<int64_t> inputs; std::vector<std::string> reached; };

struct Result {
    Stats st;
    std::vector<Violation> viol;
    std::vector<std::string> errors;
    std::vector<Sample> samples;
    std::set<std::string> reached;
    std::set<int> fexec;
    std::set<uint64_t> brs;    // covered branch sides in repo functions
};

struct Engine {
    ExprMgr em;
    Z3_solver solver = 0;
    Z3_context ctx = 0;
    Z3_params pars;
    // path state
    std::vector<Obj> objs;
    std::vector<uint32_t> gran;       // heap/stack granule -> object
    std::vector<uint32_t> ggran;      // global granule
    uint64_t next = HBASE;
    std::vector<std::vector<uint8_t>*> pool;
    char* arena = 0; size_t arenaSize = 0, arenaUsed = 0; std::vector<char*> arenaOld;
    std::vector<int> dirtyGlobals;
    std::vector<std::pair<void*, size_t>> bigSym;
    struct Frame { int fn; int pc; size_t base; int dst; std::vector<int> locals; uint64_t va; };
    std::vector<Frame> stack;
    std::vector<Val> regs;
    // coroutines: number 0 is the harness function itself
    struct Co { std::vector<Frame> stack; std::vector<Val> regs; bool done = false; };
    std::vector<Co> cos;
    int curCo = 0;
    std::vector<std::vector<Val>> aggs;
    std::vector<Expr*> pcs;
    uint32_t kepoch = 1;
    std::unordered_map<Expr*, uint8_t> known;
    // inputs
    std::vector<uint64_t> in;         // current values (shadow)
    std::vector<uint64_t> lo;         // for output
    std::vector<uint8_t> width;
    uint32_t nin = 0;
    uint32_t dec = 0;
    Item* item = 0;
    std::vector<uint8_t> implied;
    std::vector<Item> out;            // new items
    Result* res = 0;
    std::vector<std::string> reachedNow;
    uint64_t icount = 0;
    uint64_t timeTick = 0;
    std::map<std::string,int> descCount;
    struct EndPath { int why; };      // 0 done, 1 stopped/assume, 2 violation, 3 error

    struct CacheEnt { int r; std::vector<std::pair<uint32_t,uint64_t>> model; };
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ULL; for(auto x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 31; } return h; } };
    std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

    void init()
    {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        em.ctx = ctx;
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
        const char* s = getenv("SYMEX_SOLVER");
        if (s && !strcmp(s, "simple")) solver = Z3_mk_simple_solver(ctx);
        else if (s && !strcmp(s, "tactic")) solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        else solver = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, solver);
        pars = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, pars);
        Z3_params_set_uint(ctx, pars, Z3_mk_string_symbol(ctx, "timeout"), 30000);
        Z3_solver_set_params(ctx, solver, pars);
        arenaSize = 1 << 20;
        arena = (char*) ::malloc(arenaSize);
        uint64_t top = GBASE;
        for(auto& g : globals) top = std::max(top, g.addr + g.size);
        ggran.assign((top - GBASE) / 64 + 2, ~0u);
        for(size_t i = 0; i < globals.size(); i++) {
            auto& g = globals[i];
            Obj o{g.addr, g.size, (uint8_t*) ::malloc(g.size + 1), 0, 1, 0, false, g.cst, (int) i};
            memcpy(o.data, g.init.data(), g.size);
            objs.push_back(o);
            for(uint64_t x = g.addr; x < g.addr + std::max<uint64_t>(g.size, 1); x += 64) ggran[(x - GBASE) / 64] = i;
        }
    }
    void* aalloc(size_t n)
    {
        n = (n + 15) & ~15ULL;
        if (arenaUsed + n > arenaSize) {
            arenaOld.push_back(arena);
            arenaSize = std::max<size_t>(arenaSize * 2, n * 2);
            arena = (char*) ::malloc(arenaSize);
            arenaUsed = 0;
        }
        void* p = arena + arenaUsed;
        arenaUsed += n;
        return p;
    }

    int alloc(uint64_t size, int kind, int fill)
    {
        if (size > (64u << 20)) violation("memory: allocation of more than 64 MB requested");
        uint64_t a = next;
        Obj o{a, size, (uint8_t*) aalloc(size + 1), 0, 1, (uint8_t) kind, false, false, -1};
        memset(o.data, fill, size);
        next = (a + size + 32 + 63) & ~63ULL;
        int n = objs.size();
        objs.push_back(o);
        uint64_t g0 = (a - HBASE) / 64, g1 = (next - HBASE) / 64;
        if (gran.size() < g1) gran.resize(std::max<size_t>(g1, gran.size() * 2), ~0u);
        for(uint64_t g = g0; g < g1; g++) gran[g] = n;
        return n;
    }
    int findObj(uint64_t a)
    {
        if (a >= HBASE) {
            if (a >= next) return -1;
            return (int) gran[(a - HBASE) / 64];
        }
        if (a >= GBASE) {
            uint64_t g = (a - GBASE) / 64;
            if (g >= ggran.size()) return -1;
            return (int) ggran[g];
        }
        return -1;
    }

    // ------------------------------------------------ reporting
    std::string loc()
    {
        for(int i = (int) stack.size() - 1; i >= 0; i--) {
            Frame& f = stack[i];
            Inst& n = funcs[f.fn].code[f.pc];
            return funcs[f.fn].file + ":" + std::to_string(n.line) + " (" + funcs[f.fn].name + ")";
        }
        return "?";
    }
    std::string btrace()
    {
        std::string s;
        for(int i = (int) stack.size() - 1; i >= 0; i--) {
            Frame& f = stack[i];
            Inst& n = funcs[f.fn].code[f.pc];
            std::string b = funcs[f.fn].file;
            size_t p = b.rfind('/');
            s += funcs[f.fn].name + "@" + (p == std::string::npos ? b : b.substr(p + 1)) + ":" + std::to_string(n.line) + " ";
        }
        return s;
    }
    std::vector<int64_t> outInputs(const std::vector<uint64_t>& v)
    {
        std::vector<int64_t> r;
        for(uint32_t i = 0; i < nin; i++) r.push_back((int64_t) v[i]);
        return r;
    }
    void record(const std::string& desc, const std::vector<uint64_t>& inputs)
    {
        std::string l = loc();
        int& c = descCount[desc + l];
        c++;
        if (c > optPerDesc) return;
        res->viol.push_back({desc, l, btrace(), outInputs(inputs)});
    }
    [[noreturn]] void violation(const std::string& desc)
    {
        if (dec >= item->bound) record(desc, in);
        res->st.violpaths++;
        throw EndPath{2};
    }
    [[noreturn]] void error(const std::string& d)
    {
        res->st.errors++;
        if (res->errors.size() < 10) res->errors.push_back(d + " at " + btrace());
        throw EndPath{3};
    }

    // ------------------------------------------------ solver
    // is pc && extra satisfiable? model: full input vector
    int query(std::vector<Expr*> extra, std::vector<uint64_t>& model)
    {
        std::vector<uint8_t> vs(nin, 0);
        std::vector<Expr*> cs;
        for(Expr* e : extra) {
            if (e->op == CONST) { if (!e->k) return 0; continue; }
            cs.push_back(e);
            for(uint32_t v : em.vars(e)) vs[v] = 1;
        }
        std::vector<uint8_t> used(pcs.size(), 0);
        bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < pcs.size(); i++) {
                if (used[i]) continue;
                auto& v = em.vars(pcs[i]);
                bool hit = false;
                for(uint32_t x : v) if (vs[x]) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1;
                cs.push_back(pcs[i]);
                for(uint32_t x : v) if (!vs[x]) { vs[x] = 1; ch = true; }
            }
        }
        std::vector<uint32_t> key;
        for(Expr* e : cs) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it == cache.end()) {
            double t = now();
            Z3_solver_reset(ctx, solver);
            for(Expr* e : cs) Z3_solver_assert(ctx, solver, em.z3(e));
            Z3_lbool r = Z3_solver_check(ctx, solver);
            CacheEnt ce;
            ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
            if (r == Z3_L_TRUE) {
                Z3_model m = Z3_solver_get_model(ctx, solver);
                Z3_model_inc_ref(ctx, m);
                for(uint32_t i = 0; i < nin; i++) {
                    if (!vs[i]) continue;
                    Z3_ast v = 0;
                    uint64_t k = 0;
                    if (Z3_model_eval(ctx, m, em.z3(em.varExpr[i]), true, &v) && v) {
                        Z3_inc_ref(ctx, v);
                        if (em.varExpr[i]->w == 1) k = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                        else Z3_get_numeral_uint64(ctx, v, &k);
                        Z3_dec_ref(ctx, v);
                    }
                    ce.model.push_back({i, k});
                }
                Z3_model_dec_ref(ctx, m);
            }
            double dt = now() - t;
            res->st.queries++;
            res->st.solver += dt;
            if (optVerbose > 1 && dt > 1) fprintf(stderr, "slow query %.2fs r=%d at %s\n", dt, ce.r, btrace().c_str());
            it = cache.emplace(key, ce).first;
        }
        else res->st.cached++;
        if (it->second.r == 1) {
            model = in;
            for(auto& p : it->second.model) model[p.first] = p.second;
        }
        if (it->second.r < 0) {
            res->st.unknown++;
            if (res->errors.size() < 10) res->errors.push_back("solver gave no answer at " + btrace());
        }
        return it->second.r;
    }
    void addPc(Expr* c)
    {
        if (c->op == CONST) return;
        pcs.push_back(c);
        setKnown(c, true);
    }
    void setKnown(Expr* c, bool v)
    {
        if (c->op == CONST) return;
        known[c] = v;
        known[em.notE(c)] = !v;
    }
    void push(const std::vector<uint64_t>& model, uint32_t bound, std::vector<uint64_t> excl = {})
    {
        out.emplace_back();
        Item& i = out.back();
        i.in = model;
        i.bound = bound;
        i.excl = excl;
        i.implied.assign(implied.begin(), implied.begin() + std::min<size_t>(implied.size(), bound));
        i.implied.resize(bound, 0);
    }
    void setImplied(uint32_t d, uint8_t v) { if (implied.size() <= d) implied.resize(d + 1, 0); implied[d] = v; }

    // branch on symbolic condition; c: shadow outcome
    bool branch(Expr* e, bool c)
    {
        if (e->op == CONST) return e->k;
        auto k = known.find(e);
        if (k != known.end()) return k->second;
        uint32_t d = dec++;
        Expr* taken = c ? e : em.notE(e);
        if (d >= item->bound) {
            res->st.decisions++;
            std::vector<uint64_t> m;
            int r = query({c ? em.notE(e) : e}, m);
            if (r == 1) { push(m, d + 1); setImplied(d, 0); res->st.branches += 2; }
            else { setImplied(d, r == 0); res->st.branches++; }
        }
        else setImplied(d, d < item->implied.size() ? item->implied[d] : 0);
        if (implied[d]) setKnown(taken, true);
        else addPc(taken);
        return c;
    }
    uint64_t conc(Val v, unsigned w)
    {
        if (!v.e) return v.c;
        if (v.e->op == CONST) return v.e->k;
        Expr* ck = em.cst(v.c, w);
        Expr* eq = em.cmp(EQ, v.e, ck);
        auto k = known.find(eq);
        if (eq->op == CONST || (k != known.end() && k->second)) return v.c;
        uint32_t d = dec++;
        if (d >= item->bound) {
            res->st.decisions++; res->st.concs++;
            std::vector<uint64_t> seen;
            if (d == item->bound) seen = item->excl;
            seen.push_back(v.c);
            std::vector<Expr*> ex;
            for(uint64_t s : seen) ex.push_back(em.notE(em.cmp(EQ, v.e, em.cst(s, w))));
            std::vector<uint64_t> m;
            int r = query(ex, m);
            setImplied(d, 0);
            if (r == 1) {
                if ((int) seen.size() >= optConcMax) {
                    res->st.errors++;
                    if (res->errors.size() < 10) res->errors.push_back("too many values for one expression at " + btrace());
                }
                else push(m, d, seen);
                res->st.branches += 2;
            }
            else { if (seen.size() == 1 && r == 0) setImplied(d, 1); res->st.branches++; }
        }
        else setImplied(d, d < item->implied.size() ? item->implied[d] : 0);
        if (implied[d]) setKnown(eq, true);
        else addPc(eq);
        return v.c;
    }
    void assume(Val v)
    {
        if (!v.e || v.e->op == CONST) {
            if (!(v.c & 1)) throw EndPath{1};
            return;
        }
        auto k = known.find(v.e);
        if (k != known.end()) { if (!k->second) throw EndPath{1}; return; }
        if (v.c & 1) { addPc(v.e); return; }
        std::vector<uint64_t> m;
        int r = query({v.e}, m);
        if (r == 1) push(m, std::max(dec, item->bound), dec <= item->bound ? item->excl : std::vector<uint64_t>());
        throw EndPath{1};
    }
    void prop(Val v, const std::string& desc)
    {
        bool fresh = dec >= item->bound;
        if (fresh) res->st.props++;
        if (!v.e || v.e->op == CONST) {
            if (!(v.c & 1)) violation("PROP " + desc);
            if (fresh) res->st.discharged++;
            return;
        }
        auto k = known.find(v.e);
        if (k != known.end() && k->second) { if (fresh) res->st.discharged++; return; }
        std::vector<uint64_t> m;
        if (v.c & 1) {
            if (fresh) {
                int r = query({em.notE(v.e)}, m);
                if (r == 1) { record("PROP " + desc, m); res->st.violpaths++; addPc(v.e); return; }
                if (r == 0) { res->st.discharged++; setKnown(v.e, true); return; }
            }
            addPc(v.e);
            return;
        }
        if (fresh) record("PROP " + desc, in);
        res->st.violpaths++;
        int r = query({v.e}, m);
        if (r == 1) push(m, std::max(dec, item->bound), dec <= item->bound ? item->excl : std::vector<uint64_t>());
        throw EndPath{2};
    }

    // ------------------------------------------------ memory
    Obj& access(uint64_t a, uint64_t n, bool write, uint64_t& off)
    {
        int i = findObj(a);
        if (i < 0) violation(a < 4096 ? std::string("memory: null pointer ") + (write ? "write" : "read")
                                      : std::string("memory: invalid pointer ") + (write ? "write" : "read"));
        Obj& o = objs[i];
        off = a - o.addr;
        if (off + n > o.size || a < o.addr) violation(std::string("memory: out-of-bounds ") + (write ? "write" : "read") +
            (o.kind == 0 ? " (global)" : o.kind == 1 ? " (stack)" : " (heap)"));
        if (o.state != 1) violation(o.state == 2 ? "memory: use after free" : "memory: use after return");
        if (write) {
            if (o.cst) violation("memory: write to constant");
            if (o.kind == 0 && !o.dirty) { o.dirty = true; dirtyGlobals.push_back(i); }
        }
        return o;
    }
    static uint64_t rd(const uint8_t* p, unsigned n) { uint64_t v = 0; memcpy(&v, p, n); return v; }
    Val load(uint64_t a, unsigned w)
    {
        unsigned n = (w + 7) / 8;
        uint64_t off;
        Obj& o = access(a, n, false, off);
        Val v{rd(o.data + off, n) & maskw(w), 0};
        if (!o.sym) return v;
        SymByte* s = o.sym + off;
        bool any = false;
        for(unsigned i = 0; i < n; i++) if (s[i].e) { any = true; break; }
        if (!any) return v;
        Expr* e0 = s[0].e;
        Expr* e = 0;
        if (e0 && s[0].idx == 0 && e0->w == n * 8) {
            bool ok = true;
            for(unsigned i = 1; i < n; i++) if (s[i].e != e0 || s[i].idx != i) { ok = false; break; }
            if (ok) e = e0;
        }
        if (!e) {
            for(unsigned i = 0; i < n; i++) {
                Expr* b = s[i].e ? em.extract(s[i].e, 8 * s[i].idx, 8) : em.cst(o.data[off + i], 8);
                e = e ? em.concat(b, e) : b;
            }
        }
        if (e->w != w) e = em.extract(e, 0, w);
        v.e = e->op == CONST ? 0 : e;
        return v;
    }
    void store(uint64_t a, Val v, unsigned w)
    {
        unsigned n = (w + 7) / 8;
        uint64_t off;
        Obj& o = access(a, n, true, off);
        memcpy(o.data + off, &v.c, n);
        if (v.e) {
            Expr* e = v.e;
            if (e->w != n * 8) e = em.ext(ZEXT, e, n * 8);
            if (!o.sym) newSym(o);
            for(unsigned i = 0; i < n; i++) o.sym[off + i] = {e, i};
        }
        else if (o.sym) memset(o.sym + off, 0, n * sizeof(SymByte));
    }
    void newSym(Obj& o)
    {
        size_t bytes = (o.size + 1) * sizeof(SymByte);
        if (bytes > (1 << 20)) {
            // only touched pages get backed by memory
            void* p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) error("out of memory");
            bigSym.push_back({p, bytes});
            o.sym = (SymByte*) p;
            return;
        }
        o.sym = (SymByte*) aalloc(bytes);
        memset(o.sym, 0, bytes);
    }
    void copyMem(uint64_t d, uint64_t s, uint64_t n)
    {
        if (n == 0) return;
        uint64_t so, dof;
        int si; { access(s, n, false, so); si = findObj(s); }
        Obj& od = access(d, n, true, dof);
        Obj& os = objs[si];
        memmove(od.data + dof, os.data + so, n);
        if (os.sym) {
            if (!od.sym) newSym(od);
            memmove(od.sym + dof, os.sym + so, n * sizeof(SymByte));
        }
        else if (od.sym) memset(od.sym + dof, 0, n * sizeof(SymByte));
    }
    std::string cstr(uint64_t a, size_t max = 400)
    {
        std::string s;
        int i = findObj(a);
        if (i < 0) return "?";
        Obj& o = objs[i];
        for(uint64_t off = a - o.addr; off < o.size && s.size() < max; off++) { if (!o.data[off]) break; s += (char) o.data[off]; }
        return s;
    }

    // ------------------------------------------------ interpreter
    inline Val get(const Opnd& o, size_t base) { return o.reg < 0 ? Val{o.c, 0} : regs[base + o.reg]; }
    inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : em.cst(v.c, w); }
    Val mkv(uint64_t c, Expr* e) { return {c, e->op == CONST ? 0 : e}; }

    void pushFrame(int fn, const std::vector<Val>& args, const std::vector<uint8_t>* argw, int dst)
    {
        Func& f = funcs[fn];
        if (stack.size() > 400) violation("recursion too deep");
        if (!f.executed) { f.executed = true; res->fexec.insert(fn); }
        size_t base = regs.size();
        regs.resize(base + f.nregs, Val{0, 0});
        for(int i = 0; i < f.nargs && i < (int) args.size(); i++) regs[base + i] = args[i];
        Frame fr;
        fr.fn = fn; fr.pc = 0; fr.base = base; fr.dst = dst; fr.va = 0;
        if (f.vararg) {
            int n = (int) args.size() - f.nargs;
            int o = alloc(8 * std::max(n, 1), 1, 0);
            fr.locals.push_back(o);
            fr.va = objs[o].addr;
            for(int i = 0; i < n; i++) {
                Val v = args[f.nargs + i];
                unsigned w = argw ? (*argw)[f.nargs + i] : 64;
                if (v.e && w < 64) v.e = em.ext(ZEXT, v.e, 64);
                store(fr.va + 8 * i, v, 64);
            }
        }
        stack.push_back(fr);
    }

    static double toD(uint64_t c, bool flt) { if (flt) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
    static uint64_t fromD(double d, bool flt) { if (flt) { float f = (float) d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }

    void runPath(Item& it, Result& r)
    {
        res = &r;
        item = &it;
        in = it.in;
        // reset
        for(size_t i = globals.size(); i < objs.size(); i++) { }
        objs.resize(globals.size());
        for(int g : dirtyGlobals) {
            Obj& o = objs[g];
            memcpy(o.data, globals[g].init.data(), o.size);
            o.dirty = false;
        }
        for(auto& o : objs) { o.sym = 0; o.state = 1; }
        dirtyGlobals.clear();
        next = HBASE;
        for(char* p : arenaOld) ::free(p);
        arenaOld.clear();
        arenaUsed = 0;
        stack.clear(); regs.clear(); aggs.clear(); pcs.clear(); known.clear(); implied.clear();
        cos.clear(); cos.resize(1); curCo = 0;
        for(auto& m : bigSym) munmap(m.first, m.second);
        bigSym.clear();
        lo.clear();
        nin = 0; dec = 0; icount = 0; timeTick = 0;
        reachedNow.clear();
        aggs.emplace_back();
        auto fi = funcNo.find(optFunc);
        int why = 0;
        try {
            pushFrame(fi->second, {}, 0, -1);
            interp();
        } catch(EndPath& e) { why = e.why; }
        r.st.paths++;
        r.st.insts += icount;
        if (why == 0 || why == 1) {
            for(auto& s : reachedNow) r.reached.insert(s);
        }
        if (why == 0) {
            r.st.done++;
            if (r.samples.size() < 40 && (r.samples.size() < 4 || (r.st.done & (r.st.done - 1)) == 0)) r.samples.push_back({outInputs(in), reachedNow});
        }
        if (why == 1) r.st.stopped++;
    }

    void switchCo(int id)
    {
        if (id == curCo) return;
        if (id < 0 || id >= (int) cos.size() || cos[id].done) error("sym_co_switch: invalid coroutine");
        cos[curCo].stack.swap(stack); cos[curCo].regs.swap(regs);
        stack.swap(cos[id].stack); regs.swap(cos[id].regs);
        curCo = id;
    }

    void interp()
    {
        size_t base = stack.back().base;
        Func* f = &funcs[stack.back().fn];
        int pc = 0;
        while(true) {
            Inst& I = f->code[pc];
            stack.back().pc = pc;
            if (++icount > optMaxInst) violation("call does not terminate (instruction limit)");
            switch(I.op) {
            case I_BIN: {
                Val a = get(I.a, base), b = get(I.b, base);
                if (I.sub == UDIV || I.sub == SDIV || I.sub == UREM || I.sub == SREM) {
                    if (b.e) { Expr* nz = em.notE(em.cmp(EQ, b.e, em.cst(0, I.w))); prop(mkv(b.c != 0, nz), "no division by zero"); }
                    else if (b.c == 0) violation("division by zero");
                }
                uint64_t c = ExprMgr::fold((Op) I.sub, I.w, a.c, b.c);
                Val& d = regs[base + I.dst];
                if (!a.e && !b.e) d = {c, 0};
                else d = mkv(c, em.bin((Op) I.sub, ex(a, I.w), ex(b, I.w)));
                pc++; break;
            }
            case I_ICMP: {
                Val a = get(I.a, base), b = get(I.b, base);
                Op o; bool swap = false, neg = false;
                switch((CmpInst::Predicate) I.sub) {
                case CmpInst::ICMP_EQ: o = EQ; break;
                case CmpInst::ICMP_NE: o = EQ; neg = true; break;
                case CmpInst::ICMP_UGT: o = ULT; swap = true; break;
                case CmpInst::ICMP_UGE: o = ULE; swap = true; break;
                case CmpInst::ICMP_ULT: o = ULT; break;
                case CmpInst::ICMP_ULE: o = ULE; break;
                case CmpInst::ICMP_SGT: o = SLT; swap = true; break;
                case CmpInst::ICMP_SGE: o = SLE; swap = true; break;
                case CmpInst::ICMP_SLT: o = SLT; break;
                default: o = SLE; break;
                }
                if (swap) std::swap(a, b);
                uint64_t c = ExprMgr::fold(o, I.w2, a.c, b.c) ^ (neg ? 1 : 0);
                Val& d = regs[base + I.dst];
                if (!a.e && !b.e) d = {c, 0};
                else {
                    Expr* e = em.cmp(o, ex(a, I.w2), ex(b, I.w2));
                    if (neg) e = em.notE(e);
                    d = mkv(c, e);
                }
                pc++; break;
            }
            case I_FBIN: {
                uint64_t ac = conc(get(I.a, base), I.w), bc = conc(get(I.b, base), I.w);
                double r;
                if (I.isFloat) {
                    float x = toD(ac, true), y = toD(bc, true);
                    r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmodf(x, y);
                }
                else {
                    double x = toD(ac, false), y = toD(bc, false);
                    r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmod(x, y);
                }
                regs[base + I.dst] = {fromD(r, I.isFloat), 0};
                pc++; break;
            }
            case I_FNEG: {
                uint64_t ac = conc(get(I.a, base), I.w);
                regs[base + I.dst] = {ac ^ (I.isFloat ? 0x80000000ULL : 0x8000000000000000ULL), 0};
                pc++; break;
            }
            case I_FCMP: {
                unsigned w = I.isFloat ? 32 : 64;
                double x = toD(conc(get(I.a, base), w), I.isFloat), y = toD(conc(get(I.b, base), w), I.isFloat);
                bool un = std::isnan(x) || std::isnan(y), r;
                switch((CmpInst::Predicate) I.sub) {
                case CmpInst::FCMP_OEQ: r = !un && x == y; break;
                case CmpInst::FCMP_OGT: r = !un && x > y; break;
                case CmpInst::FCMP_OGE: r = !un && x >= y; break;
                case CmpInst::FCMP_OLT: r = !un && x < y; break;
                case CmpInst::FCMP_OLE: r = !un && x <= y; break;
                case CmpInst::FCMP_ONE: r = !un && x != y; break;
                case CmpInst::FCMP_ORD: r = !un; break;
                case CmpInst::FCMP_UNO: r = un; break;
                case CmpInst::FCMP_UEQ: r = un || x == y; break;
                case CmpInst::FCMP_UGT: r = un || x > y; break;
                case CmpInst::FCMP_UGE: r = un || x >= y; break;
                case CmpInst::FCMP_ULT: r = un || x < y; break;
                case CmpInst::FCMP_ULE: r = un || x <= y; break;
                case CmpInst::FCMP_UNE: r = un || x != y; break;
                case CmpInst::FCMP_TRUE: r = true; break;
                default: r = false;
                }
                regs[base + I.dst] = {r, 0};
                pc++; break;
            }
            case I_ZEXT: {
                Val a = get(I.a, base);
                regs[base + I.dst] = a.e ? mkv(a.c, em.ext(ZEXT, a.e, I.w)) : Val{a.c, 0};
                pc++; break;
            }
            case I_SEXT: {
                Val a = get(I.a, base);
                uint64_t c = (uint64_t) sgn(a.c, I.w2) & maskw(I.w);
                regs[base + I.dst] = a.e ? mkv(c, em.ext(SEXT, a.e, I.w)) : Val{c, 0};
                pc++; break;
            }
            case I_TRUNC: {
                Val a = get(I.a, base);
                uint64_t c = a.c & maskw(I.w);
                regs[base + I.dst] = a.e ? mkv(c, em.extract(a.e, 0, I.w)) : Val{c, 0};
                pc++; break;
            }
            case I_MOV: regs[base + I.dst] = get(I.a, base); pc++; break;
            case I_FP2SI: {
                double x = toD(conc(get(I.a, base), I.isFloat ? 32 : 64), I.isFloat);
                int64_t v = (x >= 9.3e18 || x <= -9.3e18 || std::isnan(x)) ? INT64_MIN : (int64_t) x;
                regs[base + I.dst] = {(uint64_t) v & maskw(I.w), 0};
                pc++; break;
            }
            case I_FP2UI: {
                double x = toD(conc(get(I.a, base), I.isFloat ? 32 : 64), I.isFloat);
                uint64_t v = std::isnan(x) ? 0 : x < 0 ? (uint64_t)(int64_t) x : x >= 1.8446744073709552e19 ? ~0ULL : (uint64_t) x;
                regs[base + I.dst] = {v & maskw(I.w), 0};
                pc++; break;
            }
            case I_SI2FP: {
                int64_t v = sgn(conc(get(I.a, base), I.w2), I.w2);
                regs[base + I.dst] = {I.isFloat ? fromD((float) v, true) : fromD((double) v, false), 0};
                pc++; break;
            }
            case I_UI2FP: {
                uint64_t v = conc(get(I.a, base), I.w2);
                regs[base + I.dst] = {I.isFloat ? fromD((float) v, true) : fromD((double) v, false), 0};
                pc++; break;
            }
            case I_FPCVT: {
                bool src = !I.isFloat; // result double: source float
                uint64_t c = conc(get(I.a, base), src ? 32 : 64);
                regs[base + I.dst] = {fromD(toD(c, src), I.isFloat), 0};
                pc++; break;
            }
            case I_SELECT: {
                Val s = get(I.a, base), a = get(I.b, base), b = get(I.c, base);
                if (!s.e) regs[base + I.dst] = (s.c & 1) ? a : b;
                else {
                    auto k = known.find(s.e);
                    if (k != known.end()) regs[base + I.dst] = k->second ? a : b;
                    else if (I.agg) regs[base + I.dst] = branch(s.e, s.c & 1) ? a : b;
                    else regs[base + I.dst] = mkv((s.c & 1) ? a.c : b.c, em.ite(s.e, ex(a, I.w), ex(b, I.w)));
                }
                pc++; break;
            }
            case I_GEP: {
                Val a = get(I.a, base);
                uint64_t c = a.c + I.imm;
                bool sym = a.e != 0;
                for(size_t i = 0; i < I.idx.size(); i++) {
                    Val x = get(I.idx[i].first, base);
                    c += (uint64_t) sgn(x.c, I.idxw[i]) * I.idx[i].second;
                    if (x.e) sym = true;
                }
                if (!sym) regs[base + I.dst] = {c, 0};
                else {
                    Expr* e = em.bin(ADD, ex(a, 64), em.cst(I.imm, 64));
                    for(size_t i = 0; i < I.idx.size(); i++) {
                        Val x = get(I.idx[i].first, base);
                        Expr* xe = em.ext(SEXT, ex(x, I.idxw[i]), 64);
                        e = em.bin(ADD, e, em.bin(MUL, xe, em.cst(I.idx[i].second, 64)));
                    }
                    regs[base + I.dst] = mkv(c, e);
                }
                pc++; break;
            }
            case I_LOAD: {
                uint64_t a = conc(get(I.a, base), 64);
                if (I.agg) {
                    std::vector<Leaf> ls; leaves(I.ty, 0, ls);
                    std::vector<Val> vs;
                    for(auto& l : ls) vs.push_back(load(a + l.off, l.w));
                    aggs.push_back(vs);
                    regs[base + I.dst] = {aggs.size() - 1, 0};
                }
                else regs[base + I.dst] = load(a, I.w);
                pc++; break;
            }
            case I_STORE: {
                uint64_t a = conc(get(I.a, base), 64);
                if (I.agg) {
                    std::vector<Leaf> ls; leaves(I.ty, 0, ls);
                    std::vector<Val> vs = aggs[get(I.b, base).c];
                    for(size_t i = 0; i < ls.size(); i++) store(a + ls[i].off, i < vs.size() ? vs[i] : Val{0,0}, ls[i].w);
                }
                else store(a, get(I.b, base), I.w);
                pc++; break;
            }
            case I_ALLOCA: {
                uint64_t n = conc(get(I.a, base), I.w2);
                if (I.w2 < 64 && sgn(n, I.w2) < 0) violation("memory: negative size of stack array");
                int o = alloc(n * I.imm, 1, 0xbe);
                stack.back().locals.push_back(o);
                regs[base + I.dst] = {objs[o].addr, 0};
                pc++; break;
            }
            case I_CALL: {
                int callee = I.callee;
                if (callee < 0) {
                    uint64_t a = conc(get(I.a, base), 64);
                    if (a == 0) violation("call of null function pointer");
                    uint64_t k = (a - FBASE) / 16;
                    if (a < FBASE || (a - FBASE) % 16 || k >= funcs.size()) violation("call of invalid function pointer");
                    callee = (int) k;
                }
                Func& cf = funcs[callee];
                if (cf.defined && cf.builtin < 0) {
                    std::vector<Val> args;
                    args.reserve(I.args.size());
                    for(auto& o : I.args) args.push_back(get(o, base));
                    std::vector<int> bv;
                    for(size_t i = 0; i < args.size(); i++) if (I.byval[i]) {
                        uint64_t src = conc(args[i], 64);
                        int o = alloc(I.byval[i], 1, 0);
                        copyMem(objs[o].addr, src, I.byval[i]);
                        bv.push_back(o);
                        args[i] = {objs[o].addr, 0};
                    }
                    pushFrame(callee, args, &I.argw, I.dst);
                    for(int o : bv) stack.back().locals.push_back(o);
                    base = stack.back().base;
                    f = &funcs[callee];
                    pc = 0;
                    break;
                }
                if (cf.builtin == B_COSWITCH) {
                    switchCo((int) conc(get(I.args[0], base), 32));
                    base = stack.back().base;
                    f = &funcs[stack.back().fn];
                    pc = stack.back().pc + 1;
                    break;
                }
                builtin(I, cf, base);
                pc++; break;
            }
            case I_RET: {
                Val v{0,0};
                if (I.sub) v = get(I.a, base);
                for(int o : stack.back().locals) objs[o].state = 3;
                int dst = stack.back().dst;
                regs.resize(base);
                stack.pop_back();
                if (stack.empty()) {
                    if (curCo == 0) return;
                    cos[curCo].done = true;
                    switchCo(0);
                    dst = -1;
                }
                base = stack.back().base;
                f = &funcs[stack.back().fn];
                pc = stack.back().pc + 1;
                if (dst >= 0) regs[base + dst] = v;
                break;
            }
            case I_BR: pc = takeEdge(I.edges[0], base); break;
            case I_CONDBR: {
                Val c = get(I.a, base);
                bool t = c.e ? branch(c.e, c.c & 1) : (c.c & 1);
                if (f->inRepo) cover(stack.back().fn, pc, t);
                pc = takeEdge(I.edges[t ? 0 : 1], base);
                break;
            }
            case I_SWITCH: {
                Val v = get(I.a, base);
                int k = 0;
                if (!v.e) {
                    for(size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v.c) { k = i + 1; break; }
                }
                else {
                    // one yes/no decision per case
                    for(size_t i = 0; i < I.cases.size(); i++) {
                        Expr* e = em.cmp(EQ, v.e, em.cst(I.cases[i], I.w2));
                        if (branch(e, v.c == I.cases[i])) { k = i + 1; break; }
                    }
                }
                if (f->inRepo) cover(stack.back().fn, pc, k);
                pc = takeEdge(I.edges[k], base);
                break;
            }
            case I_EXTRACTV: regs[base + I.dst] = aggs[get(I.a, base).c].at(I.imm); pc++; break;
            case I_INSERTV: {
                std::vector<Val> vs;
                Val a = get(I.a, base);
                if (I.a.reg >= 0) vs = aggs[a.c];
                if (vs.empty()) { std::vector<Leaf> ls; leaves(I.ty, 0, ls); vs.resize(ls.size(), Val{0,0}); }
                vs.at(I.imm) = get(I.b, base);
                aggs.push_back(vs);
                regs[base + I.dst] = {aggs.size() - 1, 0};
                pc++; break;
            }
            case I_UNREACH: violation("unreachable code reached");
            case I_UNSUP: error(std::string("unsupported ") + (I.text ? I.text : ""));
            }
        }
    }
    void cover(int fn, int pc, int side)
    {
        auto& b = funcs[fn].branchSeen;
        if (b.size() <= (size_t) pc) b.resize(funcs[fn].code.size(), 0);
        if (side > 6) side = 6;
        if (!(b[pc] & (1 << side))) { b[pc] |= 1 << side; res->brs.insert(((uint64_t) fn << 32) | (pc << 3) | side); }
    }
    int takeEdge(Edge& e, size_t base)
    {
        if (e.copies.size() == 1) regs[base + e.copies[0].first] = get(e.copies[0].second, base);
        else if (!e.copies.empty()) {
            Val tmp[64];
            std::vector<Val> big;
            Val* t = tmp;
            if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
            for(size_t i = 0; i < e.copies.size(); i++) t[i] = get(e.copies[i].second, base);
            for(size_t i = 0; i < e.copies.size(); i++) regs[base + e.copies[i].first] = t[i];
        }
        return e.pc;
    }

    Val newInput(uint64_t lov, uint64_t range, bool full)
    {
        uint32_t n = nin++;
        if (nin > 4000) error("too many inputs");
        if (in.size() <= n) in.resize(n + 1, 0);
        unsigned w = full ? 64 : 1;
        if (!full) while(w < 64 && maskw(w) < range) w++;
        if (!full && w < 64 && in[n] > range) in[n] %= range + 1;
        in[n] &= maskw(w);
        Expr* v = em.mk(VAR, w, 0, 0, 0, n);
        if (em.varExpr.size() <= n) em.varExpr.resize(n + 1, 0);
        if (em.varExpr[n] != v) {
            // the same input number may have different widths on different paths: translate by (number, width)
            em.varExpr[n] = v;
            if (!v->z3) {
                Z3_sort s = w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w);
                Z3_ast a = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, n * 128 + w), s);
                Z3_inc_ref(ctx, a);
                v->z3 = a;
            }
        }
        if (!full && maskw(w) != range) pcs.push_back(em.cmp(ULE, v, em.cst(range, w)));
        Expr* e = full ? v : em.bin(ADD, em.ext(ZEXT, v, 64), em.cst(lov, 64));
        return mkv(in[n] + (full ? 0 : lov), e);
    }

    void builtin(Inst& I, Func& cf, size_t base)
    {
        auto arg = [&](int i) { return get(I.args.at(i), base); };
        auto cv = [&](int i) { return conc(arg(i), I.argw[i]); };
        auto ret = [&](Val v) { if (I.dst >= 0) regs[base + I.dst] = v; };
        switch(cf.builtin) {
        case B_ND: ret(newInput(0, 0, true)); break;
        case B_SYM_ND: {
            uint64_t l = cv(0), h = cv(1);
            if ((int64_t) h < (int64_t) l) throw EndPath{1};
            if (h == l) { ret({l, 0}); break; }
            ret(newInput(l, h - l, false));
            break;
        }
        case B_ASSUME: { Val v = arg(0); assume(b1(v, I.argw[0])); break; }
        case B_PROP: { Val v = arg(0); prop(b1(v, I.argw[0]), cstr(cv(1))); break; }
        case B_REACHED: reachedNow.push_back(cstr(cv(0))); break;
        case B_STOP: throw EndPath{0};
        case B_CONC: ret({cv(0), 0}); break;
        case B_CONEW: {
            uint64_t a = cv(0), k = (a - FBASE) / 16;
            if (a < FBASE || (a - FBASE) % 16 || k >= funcs.size() || !funcs[k].defined) error("sym_co_new: no function");
            Val v = arg(1);
            std::vector<Frame> s; std::vector<Val> rg;
            s.swap(stack); rg.swap(regs);
            pushFrame((int) k, {v}, 0, -1);
            stack.back().pc = -1;
            cos.emplace_back();
            cos.back().stack.swap(stack); cos.back().regs.swap(regs);
            stack.swap(s); regs.swap(rg);
            ret({cos.size() - 1, 0});
            break;
        }
        case B_ISSYM: ret({arg(0).e ? 1ULL : 0ULL, 0}); break;
        case B_MALLOC: { uint64_t n = cv(0); ret({objs[alloc(n, 2, 0xbe)].addr, 0}); break; }
        case B_CALLOC: { uint64_t n = cv(0) * cv(1); ret({objs[alloc(n, 2, 0)].addr, 0}); break; }
        case B_REALLOC: {
            uint64_t p = cv(0), n = cv(1);
            int o = alloc(n, 2, 0xbe);
            if (p) {
                int i = findObj(p);
                if (i < 0 || objs[i].addr != p || objs[i].kind != 2) violation("memory: realloc of invalid pointer");
                if (objs[i].state != 1) violation("memory: use after free");
                copyMem(objs[o].addr, p, std::min(n, objs[i].size));
                objs[i].state = 2;
            }
            ret({objs[o].addr, 0});
            break;
        }
        case B_FREE: {
            uint64_t p = cv(0);
            if (!p) break;
            int i = findObj(p);
            if (i < 0 || objs[i].addr != p || objs[i].kind != 2) violation("memory: free of invalid pointer");
            if (objs[i].state != 1) violation("memory: double free");
            objs[i].state = 2;
            break;
        }
        case B_MEMCPY: case B_MEMMOVE: {
            uint64_t n = cv(2), d = cv(0), s = cv(1);
            if (cf.builtin == B_MEMCPY && n > 0 && d != s && d < s + n && s < d + n && findObj(d) == findObj(s)) violation("memory: memcpy of overlapping regions");
            copyMem(d, s, n);
            ret({d, 0});
            break;
        }
        case B_MEMSET: {
            uint64_t n = cv(2), d = cv(0);
            Val v = arg(1);
            if (n > 0) {
                uint64_t off;
                Obj& o = access(d, n, true, off);
                memset(o.data + off, (int) v.c, n);
                if (v.e) { Expr* e = em.extract(v.e, 0, 8); if (!o.sym) newSym(o); for(uint64_t i = 0; i < n; i++) o.sym[off + i] = {e, 0}; }
                else if (o.sym) memset(o.sym + off, 0, n * sizeof(SymByte));
            }
            ret({d, 0});
            break;
        }
        case B_ASSERT: violation("assert: " + cstr(cv(0)) + " in " + cstr(cv(3)));
        case B_ABORT: violation(cf.name + " called");
        case B_IGNORE0: ret({0, 0}); break;
        case B_NOP: break;
        case B_STACKSAVE: ret({0x10, 0}); break;
        case B_VASTART: {
            uint64_t p = cv(0);
            store(p, {48, 0}, 32); store(p + 4, {176, 0}, 32);
            store(p + 8, {stack.back().va, 0}, 64); store(p + 16, {0, 0}, 64);
            break;
        }
        case B_VACOPY: copyMem(cv(0), cv(1), 24); break;
        case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
            Val a = arg(0), b = arg(1);
            unsigned w = I.w;
            bool u = cf.builtin == B_UMIN || cf.builtin == B_UMAX, mn = cf.builtin == B_UMIN || cf.builtin == B_SMIN;
            Op o = u ? ULT : SLT;
            bool c = ExprMgr::fold(o, w, a.c, b.c);
            if (!a.e && !b.e) { ret({(c == mn) ? a.c : b.c, 0}); break; }
            Expr* e = em.cmp(o, ex(a, w), ex(b, w));
            ret(mkv((c == mn) ? a.c : b.c, mn ? em.ite(e, ex(a, w), ex(b, w)) : em.ite(e, ex(b, w), ex(a, w))));
            break;
        }
        case B_ABS: {
            Val a = arg(0);
            unsigned w = I.w;
            uint64_t c = sgn(a.c, w) < 0 ? (0 - a.c) & maskw(w) : a.c;
            if (!a.e) { ret({c, 0}); break; }
            ret(mkv(c, em.ite(em.cmp(SLT, a.e, em.cst(0, w)), em.bin(SUB, em.cst(0, w), a.e), a.e)));
            break;
        }
        case B_BSWAP: {
            Val a = arg(0);
            uint64_t v = a.e ? conc(a, I.w) : a.c, r = 0;
            for(unsigned i = 0; i < I.w; i += 8) r |= ((v >> i) & 0xff) << (I.w - 8 - i);
            ret({r, 0});
            break;
        }
        case B_CTPOP: ret({(uint64_t) __builtin_popcountll(cv(0)), 0}); break;
        case B_FMA: {
            bool flt = I.w == 32;
            double x = toD(cv(0), flt), y = toD(cv(1), flt), z = toD(cv(2), flt);
            ret({fromD(flt ? (float) ((float) (x * y) + z) : x * y + z, flt), 0});
            break;
        }
        case B_EXPECT: ret(arg(0)); break;
        case B_MATH1: {
            double x = toD(cv(0), false), r = 0;
            std::string n = cf.name;
            if (n.compare(0, 5, "llvm.") == 0) n = n.substr(5, n.find('.', 5) - 5);
            if (n == "sqrt") r = sqrt(x); else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x);
            else if (n == "fabs") r = fabs(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x);
            else if (n == "cbrt") r = cbrt(x); else if (n == "round") r = round(x); else if (n == "exp") r = exp(x);
            else if (n == "trunc") r = trunc(x);
            ret({fromD(r, false), 0});
            break;
        }
        case B_MATH2: {
            double x = toD(cv(0), false), y = toD(cv(1), false), r = 0;
            if (cf.name == "pow") r = pow(x, y); else if (cf.name == "fmod") r = fmod(x, y);
            else if (cf.name == "fmax") r = fmax(x, y); else r = fmin(x, y);
            ret({fromD(r, false), 0});
            break;
        }
        case B_GETTIME: {
            uint64_t p = cv(0);
            timeTick++;
            store(p, {1000000 + timeTick / 1000, 0}, 64); store(p + 8, {(timeTick % 1000) * 1000, 0}, 64);
            ret({0, 0});
            break;
        }
        case B_GETENV: ret({0, 0}); break;
        case B_OBJSIZE: {
            uint64_t p = cv(0);
            int i = findObj(p);
            ret({i < 0 || objs[i].state != 1 || p < objs[i].addr || p > objs[i].addr + objs[i].size ? 0 : objs[i].addr + objs[i].size - p, 0});
            break;
        }
        case B_FMTDOUBLE: {
            // sym_fmt_double(buf, bufsize, fmt, double): printf of one floating point value
            char tmp[200];
            std::string fmt = cstr(cv(2));
            int n = snprintf(tmp, sizeof(tmp), fmt.c_str(), toD(cv(3), false));
            uint64_t d = cv(0), sz = cv(1);
            for(uint64_t i = 0; i <= (uint64_t) n && i < sz; i++) store(d + i, {(uint64_t)(uint8_t) tmp[i], 0}, 8);
            ret({(uint64_t)(uint32_t) n, 0});
            break;
        }
        default:
            error("call of function without model: " + cf.name);
        }
    }
    Val b1(Val v, unsigned w)
    {
        if (!v.e) return {v.c & maskw(w) ? 1ULL : 0ULL, 0};
        if (w == 1) return v;
        return mkv((v.c & maskw(w)) != 0, em.notE(em.cmp(EQ, v.e, em.cst(0, w))));
    }
};

// ------------------------------------------------------------------ work distribution
struct Buf {
    std::string s; size_t p = 0;
    void u64(uint64_t v) { s.append((char*) &v, 8); }
    void str(const std::string& x) { u64(x.size()); s += x; }
    void vec(const std::vector<uint64_t>& v) { u64(v.size()); s.append((const char*) v.data(), v.size() * 8); }
    void ivec(const std::vector<int64_t>& v) { u64(v.size()); s.append((const char*) v.data(), v.size() * 8); }
    void bvec(const std::vector<uint8_t>& v) { u64(v.size()); s.append((const char*) v.data(), v.size()); }
    uint64_t ru() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; }
    std::string rs() { uint64_t n = ru(); std::string x = s.substr(p, n); p += n; return x; }
    std::vector<uint64_t> rv() { uint64_t n = ru(); std::vector<uint64_t> v(n); memcpy(v.data(), s.data() + p, n * 8); p += n * 8; return v; }
    std::vector<int64_t> riv() { uint64_t n = ru(); std::vector<int64_t> v(n); memcpy(v.data(), s.data() + p, n * 8); p += n * 8; return v; }
    std::vector<uint8_t> rb() { uint64_t n = ru(); std::vector<uint8_t> v(n); memcpy(v.data(), s.data() + p, n); p += n; return v; }
};
static void putItem(Buf& b, const Item& i) { b.vec(i.in); b.u64(i.bound); b.vec(i.excl); b.bvec(i.implied); }
static Item getItem(Buf& b) { Item i; i.in = b.rv(); i.bound = b.ru(); i.excl = b.rv(); i.implied = b.rb(); return i; }
static bool sendMsg(int fd, const std::string& s)
{
    uint64_t n = s.size();
    std::string m((char*) &n, 8);
    m += s;
    size_t o = 0;
    while(o < m.size()) { ssize_t k = write(fd, m.data() + o, m.size() - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } o += k; }
    return true;
}
static bool recvAll(int fd, char* p, size_t n)
{
    while(n) { ssize_t k = read(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; n -= k; }
    return true;
}
static bool recvMsg(int fd, std::string& s)
{
    uint64_t n;
    if (!recvAll(fd, (char*) &n, 8)) return false;
    s.resize(n);
    return recvAll(fd, &s[0], n);
}
static void putResult(Buf& b, Result& r)
{
    Stats& s = r.st;
    for(uint64_t v : {s.paths, s.done, s.stopped, s.decisions, s.branches, s.queries, s.cached, s.insts, s.props, s.discharged, s.unknown, s.errors, s.violpaths, s.concs}) b.u64(v);
    uint64_t t; memcpy(&t, &s.solver, 8); b.u64(t);
    b.u64(r.viol.size());
    for(auto& v : r.viol) { b.str(v.desc); b.str(v.loc); b.str(v.stack); b.ivec(v.inputs); }
    b.u64(r.errors.size());
    for(auto& e : r.errors) b.str(e);
    b.u64(r.samples.size());
    for(auto& v : r.samples) { b.ivec(v.inputs); b.u64(v.reached.size()); for(auto& x : v.reached) b.str(x); }
    b.u64(r.reached.size());
    for(auto& x : r.reached) b.str(x);
    b.u64(r.fexec.size());
    for(int x : r.fexec) b.u64(x);
    b.u64(r.brs.size());
    for(uint64_t x : r.brs) b.u64(x);
}
static void getResult(Buf& b, Result& r)
{
    Stats& s = r.st;
    for(uint64_t* v : {&s.paths, &s.done, &s.stopped, &s.decisions, &s.branches, &s.queries, &s.cached, &s.insts, &s.props, &s.discharged, &s.unknown, &s.errors, &s.violpaths, &s.concs}) *v += b.ru();
    uint64_t t = b.ru(); double d; memcpy(&d, &t, 8); s.solver += d;
    for(uint64_t n = b.ru(); n; n--) { Violation v; v.desc = b.rs(); v.loc = b.rs(); v.stack = b.rs(); v.inputs = b.riv(); r.viol.push_back(v); }
    for(uint64_t n = b.ru(); n; n--) { std::string e = b.rs(); if (r.errors.size() < 20) r.errors.push_back(e); }
    for(uint64_t n = b.ru(); n; n--) { Sample v; v.inputs = b.riv(); for(uint64_t k = b.ru(); k; k--) v.reached.push_back(b.rs()); if (r.samples.size() < 400) r.samples.push_back(v); }
    for(uint64_t n = b.ru(); n; n--) r.reached.insert(b.rs());
    for(uint64_t n = b.ru(); n; n--) r.fexec.insert((int) b.ru());
    for(uint64_t n = b.ru(); n; n--) r.brs.insert(b.ru());
}

static bool memHigh()
{
    FILE* f = fopen("/proc/self/statm", "r");
    if (!f) return false;
    long a = 0, b = 0;
    if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    fclose(f);
    return (uint64_t) b * 4096 > optMemMB * (1ULL << 20);
}

static void workerLoop(int fd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Engine* en = new Engine();
    en->init();
    uint64_t sinceCheck = 0;
    std::string msg;
    while(recvMsg(fd, msg)) {
        Buf b; b.s = msg;
        double slice = b.ru() / 1000.0;
        std::vector<Item> st;
        for(uint64_t n = b.ru(); n; n--) st.push_back(getItem(b));
        Result r;
        double t0 = now();
        bool high = false;
        while(!st.empty() && now() - t0 < slice && !high) {
            Item it = st.back();
            st.pop_back();
            en->out.clear();
            en->runPath(it, r);
            for(auto& o : en->out) st.push_back(std::move(o));
            if (++sinceCheck > 50) { sinceCheck = 0; high = memHigh(); }
        }
        Buf o;
        o.u64(high || memHigh());
        o.u64(st.size());
        for(auto& i : st) putItem(o, i);
        putResult(o, r);
        if (!sendMsg(fd, o.s)) break;
    }
    _exit(0);
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for(unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::string bc;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]{ return std::string(argv[++i]); };
        if (a == "-f") optFunc = nx();
        else if (a == "-o") optOut = nx();
        else if (a == "-j") optJobs = atoi(nx().c_str());
        else if (a == "-t") optTimeout = atof(nx().c_str());
        else if (a == "-i") optMaxInst = atoll(nx().c_str());
        else if (a == "-repo") optRepo = nx();
        else if (a == "-v") optVerbose++;
        else if (a == "-maxviol") optMaxViol = atoi(nx().c_str());
        else if (a == "-conc") optConcMax = atoi(nx().c_str());
        else if (a == "-mem") optMemMB = atoll(nx().c_str());
        else bc = a;
    }
    signal(SIGPIPE, SIG_IGN);
    LLVMContext C;
    SMDiagnostic Err;
    std::unique_ptr<Module> M = parseIRFile(bc, Err, C);
    if (!M) { fprintf(stderr, "symex: cannot read %s\n", bc.c_str()); return 3; }
    compileModule(*M);
    auto fi = funcNo.find(optFunc);
    if (fi == funcNo.end() || !funcs[fi->second].defined) { fprintf(stderr, "symex: no function %s\n", optFunc.c_str()); return 3; }

    struct W { int fd; pid_t pid; bool busy; std::vector<Item> given; };
    std::vector<W> ws(optJobs);
    auto spawn = [&](W& w) {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) exit(3);
        pid_t p = fork();
        if (p == 0) { for(auto& x : ws) if (x.fd > 0) close(x.fd); close(sv[0]); workerLoop(sv[1]); _exit(0); }
        close(sv[1]);
        w.fd = sv[0]; w.pid = p; w.busy = false;
    };
    for(auto& w : ws) w.fd = 0;
    for(auto& w : ws) spawn(w);
    std::vector<Item> queue(1);
    Result total;
    double t0 = now();
    bool timeout = false, crash = false, tooMany = false;
    double lastInfo = t0;
    while(true) {
        int busy = 0;
        for(auto& w : ws) {
            if (!w.busy && !queue.empty()) {
                // give a share of the queue, deepest first
                size_t n = std::max<size_t>(1, std::min<size_t>(queue.size() / (2 * optJobs), 20));
                Buf b;
                b.u64(queue.size() < (size_t) optJobs * 2 ? 5 : queue.size() < (size_t) optJobs * 20 ? 20 : 80);
                b.u64(n);
                w.given.clear();
                for(size_t i = 0; i < n; i++) { putItem(b, queue.back()); w.given.push_back(queue.back()); queue.pop_back(); }
                sendMsg(w.fd, b.s);
                w.busy = true;
            }
            busy += w.busy;
        }
        if (!busy) break;
        std::vector<pollfd> pf;
        for(auto& w : ws) pf.push_back({w.fd, (short) (w.busy ? POLLIN : 0), 0});
        poll(pf.data(), pf.size(), 1000);
        for(size_t i = 0; i < ws.size(); i++) {
            if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR)) || !ws[i].busy) continue;
            std::string m;
            if (!recvMsg(ws[i].fd, m)) {
                crash = true;
                close(ws[i].fd);
                kill(ws[i].pid, SIGKILL);
                waitpid(ws[i].pid, 0, 0);
                total.errors.push_back("worker died");
                total.st.errors++;
                spawn(ws[i]);
                continue;
            }
            Buf b; b.s = m;
            bool high = b.ru();
            for(uint64_t n = b.ru(); n; n--) queue.push_back(getItem(b));
            getResult(b, total);
            ws[i].busy = false;
            if (high) {
                close(ws[i].fd); kill(ws[i].pid, SIGKILL); waitpid(ws[i].pid, 0, 0);
                spawn(ws[i]);
            }
        }
        double t = now();
        if (optVerbose && t - lastInfo > 5) {
            lastInfo = t;
            fprintf(stderr, "[%.0fs] paths %lu queue %zu queries %lu solver %.1fs insts %lu viol %zu err %lu\n", t - t0, total.st.paths, queue.size(), total.st.queries, total.st.solver, total.st.insts, total.viol.size(), total.st.errors);
        }
        if (t - t0 > optTimeout) { timeout = true; break; }
        if ((int) total.viol.size() >= optMaxViol) { tooMany = true; break; }
        if (total.st.errors > 200) break;
    }
    for(auto& w : ws) { kill(w.pid, SIGKILL); waitpid(w.pid, 0, 0); }
    bool complete = !timeout && !tooMany && !crash && total.st.errors == 0 && total.st.unknown == 0;
    FILE* o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w");
    Stats& s = total.st;
    fprintf(o, "{\"complete\":%s,\"timeout\":%s,\"left\":%zu,\"paths\":%lu,\"paths_done\":%lu,\"paths_pruned\":%lu,\"decisions\":%lu,\"branches\":%lu,"
            "\"queries\":%lu,\"cached\":%lu,\"solver_s\":%.3f,\"instructions\":%lu,\"props\":%lu,\"discharged\":%lu,\"unknown\":%lu,\"errors\":%lu,\"violating_paths\":%lu,\"wall_s\":%.3f,\n",
            complete ? "true" : "false", timeout ? "true" : "false", queue.size(), s.paths, s.done, s.stopped, s.decisions, s.branches,
            s.queries, s.cached, s.solver, s.insts, s.props, s.discharged, s.unknown, s.errors, s.violpaths, now() - t0);
    auto ints = [&](const std::vector<int64_t>& v) { fprintf(o, "["); for(size_t i = 0; i < v.size(); i++) fprintf(o, "%s%ld", i ? "," : "", v[i]); fprintf(o, "]"); };
    fprintf(o, "\"violations\":[");
    std::map<std::string,int> cnt;
    bool first = true;
    for(auto& v : total.viol) {
        if (cnt[v.desc + v.loc]++ >= optPerDesc) continue;
        fprintf(o, "%s\n {\"desc\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":", first ? "" : ",", jstr(v.desc).c_str(), jstr(v.loc).c_str(), jstr(v.stack).c_str());
        ints(v.inputs);
        fprintf(o, "}");
        first = false;
    }
    fprintf(o, "],\n\"error_list\":[");
    std::set<std::string> es(total.errors.begin(), total.errors.end());
    first = true;
    for(auto& e : es) { fprintf(o, "%s%s", first ? "" : ",", jstr(e).c_str()); first = false; }
    fprintf(o, "],\n\"reached\":[");
    first = true;
    for(auto& e : total.reached) { fprintf(o, "%s%s", first ? "" : ",", jstr(e).c_str()); first = false; }
    fprintf(o, "],\n\"functions\":[");
    first = true;
    for(int n : total.fexec) if (funcs[n].inRepo) { fprintf(o, "%s%s", first ? "" : ",", jstr(funcs[n].name).c_str()); first = false; }
    // branch coverage of executed functions of the repository
    uint64_t sides = 0;
    for(int n : total.fexec) if (funcs[n].inRepo) for(auto& i : funcs[n].code) { if (i.op == I_CONDBR) sides += 2; }
    uint64_t seen = 0;
    for(uint64_t x : total.brs) { int fn = x >> 32, pc = (x & 0xffffffff) >> 3; if (funcs[fn].code[pc].op == I_CONDBR) seen++; }
    fprintf(o, "],\n\"branch_sides\":%lu,\"branch_sides_covered\":%lu,\n\"samples\":[", sides, seen);
    first = true;
    for(auto& v : total.samples) {
        fprintf(o, "%s\n {\"inputs\":", first ? "" : ",");
        ints(v.inputs);
        fprintf(o, ",\"reached\":[");
        for(size_t i = 0; i < v.reached.size(); i++) fprintf(o, "%s%s", i ? "," : "", jstr(v.reached[i]).c_str());
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    return 0;
}
