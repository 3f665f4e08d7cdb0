// Decoded form of LLVM functions used by the executor.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <string>
#include <vector>

enum IOp : u8
{
    I_BIN,
    I_ICMP,
    I_CAST, // sub: 0 zext, 1 sext, 2 trunc, 3 nop
    I_ALLOCA,
    I_LOAD,
    I_STORE,
    I_GEP,
    I_BR,
    I_CBR,
    I_SWITCH,
    I_SELECT,
    I_CALL,
    I_INVOKE,
    I_RET,
    I_LPAD,
    I_RESUME,
    I_MOV, // lane copy (extractvalue/insertvalue/freeze)
    I_UNREACH,
    I_RMW,
    I_CMPXCHG,
    I_FP,
    I_NOP
};

struct Op
{
    int reg = -1; // register index, or -1: constant
    Val c;
};

struct Edge
{
    int target = -1; // instruction index
    std::vector<std::pair<int, Op>> copies;
};

struct DFunc;
struct DInst
{
    IOp op = I_NOP;
    u8 sub = 0;
    u16 w = 0, w2 = 0;
    int dst = -1;
    int nl = 0; // lanes of the result
    std::vector<Op> ops;
    std::vector<u16> opw;                       // widths of ops lanes (calls / rets)
    std::vector<std::pair<int, int>> args;      // call: (first lane in ops, byval size or 0)
    u64 off = 0;                                // gep constant offset / alloca size
    std::vector<u64> scale;                     // gep: scale for ops[1..]
    std::vector<Edge> edges;                    // br/switch/invoke targets
    std::vector<u64> cases;                     // switch values for edges[1..]
    DFunc* callee = nullptr;
    int intr = 0;
    bool isCleanup = false;
    std::vector<std::pair<u64, int>> clauses;   // landingpad: (typeinfo address, 0 catch / 1 filter)
    u8 order = 0;                               // 0 none/relaxed, bit0 acquire, bit1 release
    bool atomic = false;
    bool refcount = false;
    bool hit = false; // executed at least once
    const llvm::Instruction* I = nullptr;
    std::vector<u64> liveIn, liveAfter; // bitsets (only at calls and memory operations)
};

struct DFunc
{
    const llvm::Function* F = nullptr;
    std::string name;
    int idx = 0;
    bool decoded = false;
    bool executed = false;
    bool inRepo = false;
    bool model = false; // part of the runtime model
    int nregs = 0;
    std::vector<u16> regw;
    std::vector<DInst> code;
    std::vector<std::pair<int, int>> params; // (first reg, lanes)
    std::vector<std::pair<u32, u32>> byval;  // param index, size
    u64 addr = 0;
};
