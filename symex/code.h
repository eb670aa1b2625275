// Translation of LLVM IR into a compact instruction list
#pragma once
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/CFG.h>
#include <map>
#include <set>
#include <vector>
#include <string>

enum IOp : uint8_t {
    I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_FP2SI, I_FP2UI, I_SI2FP, I_UI2FP,
    I_FPCVT, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH,
    I_EXTRACTV, I_INSERTV, I_UNREACH, I_UNSUP
};

struct Opnd { int32_t reg; uint64_t c; };   // reg < 0: constant c
struct Edge { int pc; std::vector<std::pair<int, Opnd>> copies; };

struct Inst {
    IOp op;
    uint8_t w = 0;        // result / access width in bits
    uint8_t w2 = 0;       // source width
    uint8_t sub = 0;      // binary op / predicate / flags
    int dst = -1;
    Opnd a{-1,0}, b{-1,0}, c{-1,0};
    uint32_t line = 0;
    int file = -1;
    uint64_t imm = 0;
    std::vector<std::pair<Opnd,uint64_t>> idx;  // GEP: (index, scale) ; low byte of width in idxw
    std::vector<uint8_t> idxw;
    std::vector<Opnd> args;
    std::vector<uint8_t> argw;
    std::vector<uint64_t> byval;                // byval size per argument (0: none)
    int callee = -1;                            // function number, -1: indirect
    std::vector<Edge> edges;
    std::vector<uint64_t> cases;
    std::vector<unsigned> path;
    bool isFloat = false;                       // operand is 32-bit float
    bool agg = false;                           // aggregate load/store
    llvm::Type* ty = 0;
    const char* text = 0;
};

struct Func {
    std::string name;
    bool defined = false;
    bool vararg = false;
    int nargs = 0, nregs = 0;
    std::vector<Inst> code;
    int builtin = -1;
    std::string file;
    bool inRepo = false;
    bool executed = false;
    int retw = 0;
    std::vector<uint8_t> branchSeen;
};

struct GlobalObj { std::string name; uint64_t addr, size; std::vector<uint8_t> init; bool cst; };
