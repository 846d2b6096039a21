#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct KFunc;
enum class K : uint16_t
{
    Bin,     // sub = Op
    FBin,    // sub = Op
    FRem,
    FNeg,
    ICmp,    // sub = predicate
    FCmp,
    Select,
    Br,
    CondBr,
    Switch,
    Ret,
    Unreachable,
    Call,
    Alloca,
    Load,
    Store,
    Gep,
    Trunc,
    ZExt,
    SExt,
    FToI,    // aux: 0 signed 1 unsigned
    IToF,
    FCast,
    Move,    // bitcast with identical lanes, freeze, ptrtoint...
    BitCast, // differing lanes
    ExtractElt,
    InsertElt,
    Shuffle,
    ExtractVal,
    InsertVal,
    Rmw,
    CmpXchg,
    Fence,
    LandingPad,
    Resume,
    Unsupported,
};
struct LaneTy
{
    u32 off;   // byte offset in memory
    uint16_t w; // bits
    bool fp;
};
struct PhiCopy
{
    int dst, src;
    u32 n;
};
struct Edge
{
    u32 block;
    std::vector<PhiCopy> copies;
};
struct KInst
{
    K k;
    uint16_t sub = 0, w = 0, w2 = 0;
    u32 n = 1;
    int dst = -1;
    std::vector<int> ops;
    std::vector<u64> aux;
    std::vector<LaneTy> lanes;
    std::vector<LaneTy> lanes2;
    std::vector<Edge> edges;
    std::vector<std::pair<u64, u32>> cases; // value, edge
    KFunc * callee = nullptr;
    int handler = -1;
    std::vector<u32> argLanes; // lanes per argument
    std::vector<int> argRaw;
    bool isVol = false, isAtomic = false;
    const llvm::Instruction * I = nullptr;
    const char * mnem = "";
};
struct KFunc
{
    const llvm::Function * F;
    std::string name;
    u32 nslots = 0, nargs = 0;
    std::vector<u32> argSlot, argLaneN;
    std::vector<Val> consts;
    std::vector<KInst> insts;
    std::vector<u32> blockStart;
    bool translated = false, entered = false, fromRepo = false;
    bool variadic = false;
    u64 icount = 0;
    u64 addr = 0;
};
struct Frame
{
    KFunc * f;
    std::vector<Val> regs;
    u32 pc = 0;
    u32 va = 0; // object id of the variadic area
    std::vector<u32> allocas;
    Val exc0{ nullptr, 0 }, exc1{ nullptr, 0 };
};
struct Thread
{
    std::vector<Frame> fr;
    int status = 0; // 0 runnable, 1 finished, 2 blocked
    u64 blockAddr = 0;
    u64 blockVal = 0;
    u64 retval = 0;
};
struct ExcInfo
{
    u64 obj, tinfo;
};
struct Observation
{
    std::string name;
    std::vector<std::pair<Expr *, u64>> v;
};
struct State
{
    std::vector<Thread> th;
    u32 cur = 0;
    Mem mem;
    std::vector<Expr *> pc;
    std::unordered_map<u32, u128> fixed; // symbols the path condition determines
    u64 fixedVer = 0;
    std::shared_ptr<Model> model; // satisfies pc when non-null
    std::map<std::string, int> nameCount;
    std::vector<std::pair<std::string, Expr *>> syms;
    std::vector<Observation> obs;
    std::vector<u64> caught;
    u64 steps = 0;
    u32 uninitCount = 0;
    u64 clock = 1000;
    u64 curExc = 0, curTinfo = 0;
    u32 switches = 0;
    bool yieldPoint = false;
    bool unsure = false; // some branch feasibility was not decided
    State() : model(std::make_shared<Model>()) {}
    std::vector<Frame> & fr()
    {
        return th[cur].fr;
    }
};
