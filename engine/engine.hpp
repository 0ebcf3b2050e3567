#pragma once
#include "expr.hpp"
#include "mem.hpp"
#include "solver.hpp"

#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vf
{
    struct Val
    {
        E e = nullptr;
        std::shared_ptr<std::vector<Val>> t;
    };

    struct FnInfo
    {
        llvm::Function* f = nullptr;
        std::unordered_map<const llvm::Value*, u32> slot;
        u32 n = 0;
        std::unique_ptr<llvm::DominatorTree> dt;
        std::unique_ptr<llvm::LoopInfo> li;
        std::unique_ptr<llvm::PostDominatorTree> pdt;
        std::string name;
    };

    struct LoopSnap;

    struct Frame
    {
        FnInfo* fi = nullptr;
        llvm::BasicBlock* bb = nullptr;
        llvm::BasicBlock* prev = nullptr;
        llvm::BasicBlock::iterator ip;
        std::vector<Val> loc;
        std::vector<u32> allocas;
        std::map<const llvm::Instruction*, u32> forks;
        std::vector<std::pair<const llvm::Loop*, std::shared_ptr<LoopSnap>>> snaps;  // active loops with entry snapshots
        bool discardRet = false;  // engine-made call (destructor of exception...)
    };

    struct Exn
    {
        u64 ptr = 0;
        const llvm::GlobalValue* ti = nullptr;
        std::string tiName;
        E dtor = nullptr;
        int handlers = 0;
    };

    struct Input
    {
        std::string name;
        bool buffer = false;
        bool sizeLike = false;
        E v = nullptr;      // scalar value or buffer size in bytes
        u32 elem = 1;
        u32 sym = 0;
    };

    struct QFact   // for all k in [0, bound): cond(k)
    {
        E var, bound, cond;
    };

    struct State
    {
        std::vector<Frame> fr;
        ObjTable mem;
        u32 nextId = 0;
        std::vector<E> pc;
        std::vector<Input> in;
        std::vector<Exn> caught;
        Exn cur;
        bool hasCur = false;
        std::map<u64, Exn> exns;
        i64 live = 0;
        std::vector<u32> heapIds;
        std::unordered_set<E> proved;
        std::set<std::string> bounded;
        std::vector<QFact> qfacts;
        std::vector<E> skolems;
        std::string refusing;
        u32 depth = 0;
        u64 concretised = 0;
        u64 steps = 0;
        bool abstracted = false;
    };

    struct LoopSnap
    {
        State st;   // state at loop header on entry (phis of the header evaluated)
        bool tried = false;
        bool done = false;
    };
}
