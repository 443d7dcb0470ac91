#pragma once
#include "mem.hpp"
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

struct Leaf { uint16_t w; uint32_t off; };

struct Edge {
    uint32_t target = 0;
    std::vector<std::pair<int32_t, int32_t>> moves; // dst slot, operand
};

struct LPClause { bool isCatch; std::vector<uint64_t> ti; };

struct Extra {
    FnInfo* callee = nullptr;
    std::vector<int32_t> args;
    std::vector<Edge> edges;
    std::vector<std::pair<uint64_t, uint32_t>> cases; // value -> edge index
    std::vector<std::pair<int32_t, uint64_t>> gep;    // operand, scale
    std::vector<uint16_t> gepw;
    std::vector<Leaf> leaves;
    std::vector<LPClause> clauses;
    std::vector<uint32_t> lpAll;
    bool lpCleanup = false;
    std::vector<uint32_t> argByval; // size per formal leaf (0 none)
    int64_t off = 0;
    uint32_t nret = 0;
    std::vector<int32_t> extraOps;
};

enum IOp : uint16_t {
    I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_FCAST, I_SELECT, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CONDBR,
    I_SWITCH, I_RET, I_CALL, I_UNREACH, I_RESUME, I_LANDINGPAD, I_EXTRACTV, I_INSERTV, I_RMW, I_CMPXCHG, I_FENCE,
    I_FREEZE, I_COPY, I_UNSUP
};

struct Inst {
    IOp op = I_UNSUP;
    uint8_t sub = 0;
    uint8_t ord = 0; // atomic: bit0 acquire bit1 release, bit7 atomic
    uint16_t w = 0, w2 = 0;
    uint8_t visible = 0; // 1 scheduling point, 2 only with unlock_sched
    bool invoke = false;
    bool hit = false; // executed on some path
    int32_t dst = -1;
    uint32_t nd = 0;
    int32_t a = 0, b = 0, c = 0;
    Extra* x = nullptr;
    const Instruction* I = nullptr;
    std::vector<uint32_t>* live = nullptr; // live slots before this instruction (calls and visible ops)
    FnInfo* fn = nullptr;
};

typedef int (*BuiltinId);

struct FnInfo {
    Function* F = nullptr;
    std::string name;
    uint64_t addr = 0;
    bool decoded = false;
    int builtin = 0; // 0 none
    uint8_t visibleCall = 0;
    std::vector<Inst> code;
    uint32_t nslots = 0;
    uint32_t nargs = 0; // flattened
    uint64_t calls = 0;
    bool inRepo = false;
};

struct CallCtx {
    CallCtx* parent;
    const Inst* call;
    FnInfo* fn;
};

inline void die(const std::string& m) { throw std::runtime_error(m); }
