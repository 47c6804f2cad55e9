// vcx - contract verifier for LLVM IR (core data types)
#pragma once
#include <z3++.h>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "llvm/IR/Function.h"
#include "llvm/IR/Module.h"

using z3::expr;
extern z3::context* Z;

// A bit-vector term: concrete (w<=64) or symbolic.
struct Bv {
    unsigned w = 0;
    bool c = true;
    uint64_t v = 0;
    std::shared_ptr<expr> e; // set if !c
    Bv() = default;
    Bv(unsigned w_, uint64_t v_) : w(w_), c(true), v(w_ >= 64 ? v_ : (v_ & ((1ull << w_) - 1))) {}
    static Bv sym(const expr& x);
    expr ex() const;
    bool isConst() const { return c; }
};

enum class VK { None, Int, Ptr, Agg };

struct Val {
    VK k = VK::None;
    Bv i;          // Int: value; Ptr: offset
    int obj = 0;   // Ptr: object id (0: null / raw address). Int: provenance object or 0
    Bv poff;       // Int with provenance: offset in obj
    std::shared_ptr<std::vector<Val>> agg;
    static Val mkInt(const Bv& b) { Val r; r.k = VK::Int; r.i = b; return r; }
    static Val mkPtr(int o, const Bv& off) { Val r; r.k = VK::Ptr; r.obj = o; r.i = off; return r; }
    static Val mkNull() { return mkPtr(0, Bv(64, 0)); }
};

struct Content;
enum class NK { Store, Copy, Fill };
struct Node {
    NK k;
    Bv off;
    unsigned size = 0; // Store
    Val val;           // Store / Fill(byte)
    Bv n;              // Copy/Fill
    std::shared_ptr<const Content> src;
    Bv soff;
    std::shared_ptr<const Node> next;
};
struct Cell { unsigned size; Val val; };
enum class BaseK { Uninit, Zero, Sym, Const };
struct Content {
    std::map<uint64_t, Cell> cells; // newest layer, non overlapping
    std::shared_ptr<const Node> top;
    BaseK base = BaseK::Uninit;
    std::shared_ptr<z3::func_decl> uf; // BV64 -> BV8 (Sym / Uninit on demand)
    const std::vector<uint8_t>* cdata = nullptr; // Const base
};

enum class OK { Stack, Heap, Global, Func };
struct Obj {
    int id;
    OK kind;
    Bv size;
    bool alive = true;
    bool ro = false;
    std::string name;
    std::shared_ptr<Content> ct; // copy on write
    llvm::Function* fn = nullptr;
    llvm::Type* ty = nullptr;
    int align = 16;
    bool havocPtr = false; // pointers stored here were abstracted away by a loop cut
};

struct PcNode {
    expr e;
    std::shared_ptr<const PcNode> next;
    int depth;
    PcNode(const expr& x, std::shared_ptr<const PcNode> n) : e(x), next(n), depth(n ? n->depth + 1 : 1) {}
};

struct NdEntry { // nondet log entry
    int kind;    // 0 scalar, 1 bytes
    std::string name;
    Bv v;        // scalar value or length
    std::shared_ptr<z3::func_decl> uf;
    int obj = 0;
};

struct Frame {
    llvm::Function* fn;
    llvm::BasicBlock* bb = nullptr;
    llvm::BasicBlock* prev = nullptr;
    llvm::BasicBlock::iterator it;
    std::vector<Val> regs;
    llvm::CallInst* callsite = nullptr; // in caller
    std::vector<int> allocas;
    std::vector<Val> varargs;
    std::map<llvm::BasicBlock*, int> iters;   // unroll count
    std::map<llvm::BasicBlock*, int> symIters;
    uint64_t ctxHash = 0;
};

struct TrNode { std::string t; std::shared_ptr<const TrNode> prev; ~TrNode() { auto p = std::move(prev); while (p && p.use_count() == 1) { auto q = std::move(const_cast<TrNode&>(*p).prev); p = std::move(q); } } };
struct State {
    std::shared_ptr<const TrNode> tr; // VCX_TRACE: branches taken
    std::vector<std::shared_ptr<Frame>> frames; // COW
    std::vector<std::shared_ptr<Obj>> objs;     // index by id (slot may be null)
    std::shared_ptr<const PcNode> pc;
    std::shared_ptr<z3::model> model; // satisfies pc (if set)
    std::vector<NdEntry> nd;
    bool stub = false;
    bool dead = false;
    int forks = 0;
    // pending control edge
    llvm::BasicBlock* pendFrom = nullptr;
    llvm::BasicBlock* pendTo = nullptr;
    Val retval; // when finishing an explore-call
    bool finished = false;
};
using StateP = std::unique_ptr<State>;
