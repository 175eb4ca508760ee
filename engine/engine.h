#pragma once
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// A scalar value: concrete (e == nullptr, c) or symbolic (e). Values wider than 64 bits are
// always held as expressions.
struct V {
    u64 c = 0;
    E e = nullptr;
    V () {}
    V (u64 c) : c (c) {}
};
static inline V mkV (E e) { V v; if (e->op == CONST && e->w <= 64) v.c = e->lo; else v.e = e; return v; }
static inline E toE (const V &v, unsigned w) { return v.e ? v.e : mk_const (w, v.c); }

struct SB { E e; uint32_t idx; };

struct Obj {
    u64 base, size;
    int rc = 1;
    uint8_t kind = 0; // 0 global 1 stack 2 heap 3 function 4 external
    bool ro = false;
    std::vector<uint8_t> c;
    std::vector<SB> s; // empty, or one per byte (e == nullptr: concrete)
};

struct Opnd { const V *k = nullptr; int slot = 0; };

struct Fn;
struct Ins {
    const llvm::Instruction *I;
    unsigned op;
    int dst = -1;
    unsigned w = 0;     // scalar result width
    unsigned leaves = 1;
    std::vector<Opnd> ops;
    std::vector<unsigned> ow; // operand scalar widths
    // branches / switch / invoke
    int bb0 = -1, bb1 = -1;
    // gep
    int64_t off = 0;
    std::vector<std::pair<int, int64_t>> gepv; // operand index, scale
    // memory layout of load/store/alloca
    std::vector<std::pair<u64, unsigned>> lay; // byte offset, width per leaf
    // aggregates
    unsigned sub = 0, subn = 0;
    // call
    Fn *callee = nullptr;
    int builtin = -1;
};

struct Fn {
    llvm::Function *F = nullptr;
    std::string name;
    bool compiled = false;
    std::vector<Ins> code;
    std::vector<int> bbStart;
    std::unordered_map<const llvm::BasicBlock *, int> bbIdx;
    std::vector<const llvm::BasicBlock *> bbs;
    int nregs = 0;
    std::vector<int> argSlot;
    int builtin = -2; // -2 unknown
    u64 addr = 0;
};

struct Frame {
    Fn *f = nullptr;
    int pc = 0;
    int prevBB = -1, curBB = 0;
    std::vector<V> regs;
    std::vector<u64> allocas;
    std::vector<V> varargs;
    uint8_t kind = 0; // 1: root of a parallel-region thread
};

struct Input { std::string name; unsigned w; V v; bool fp; };

struct Thread {
    std::vector<Frame> st;
    int barrier = 0; // waiting
    bool done = false;
};

struct Shadow { int8_t wt = -1; int8_t rt = -1; bool rmulti = false; uint32_t wl = 0, rl = 0; };

struct Par {
    int nth = 0;
    std::vector<Thread> th;
    std::vector<int> order;
    u64 top0 = 0; // addresses below this existed before the region
    std::unordered_map<u64, Shadow> sh;
    struct Disp { u64 lo = 0, hi = 0, st = 1, chunk = 1; u64 next = 0; bool active = false; };
    std::vector<Disp> disp;
};

struct State {
    std::vector<Frame> st; // current thread's stack
    std::vector<Obj *> mem; // sorted by base; entries may be null (freed)
    std::vector<u64> memBase;
    u64 top = 0x100000;
    size_t dead = 0;
    std::vector<E> pc;
    std::unordered_map<E, u64> conc;
    std::shared_ptr<Assign> model;
    bool modelReal = true;
    std::vector<Input> inputs;
    std::vector<std::pair<std::string, V>> obs;
    std::vector<std::string> reached;
    std::vector<std::pair<u64, u64>> caught; // exception object, typeinfo
    u64 pendExc = 0, pendTi = 0;
    std::unordered_map<u64, u64> excTi;
    u64 steps = 0;
    u64 nchecks = 0;
    bool unwinding = false;
    bool undefUsed = false;
    bool raceOn = false;
    bool termOn = false;
    u64 stepLimit = 0;
    int tid = 0, nth = 2;
    uint32_t lock = 0; // currently held critical-section id (0 none)
    std::shared_ptr<Par> par;
    bool ended = false;
    int exitcode = -1;
    State () {}
    State (const State &o) : st (o.st), mem (o.mem), memBase (o.memBase), top (o.top), dead (o.dead), pc (o.pc), conc (o.conc), model (o.model), modelReal (o.modelReal), inputs (o.inputs), obs (o.obs), reached (o.reached), caught (o.caught), pendExc (o.pendExc), pendTi (o.pendTi), excTi (o.excTi), steps (o.steps), nchecks (o.nchecks), unwinding (o.unwinding), undefUsed (o.undefUsed), raceOn (o.raceOn), termOn (o.termOn), stepLimit (o.stepLimit), tid (o.tid), nth (o.nth), lock (o.lock), par (o.par ? std::make_shared<Par> (*o.par) : nullptr), ended (o.ended), exitcode (o.exitcode)
    {
        for (auto p : mem) if (p) ++p->rc;
    }
    State &operator= (const State &) = delete;
    ~State () { for (auto p : mem) if (p && --p->rc == 0) delete p; }
};
