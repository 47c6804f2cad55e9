#pragma once
#include "bv.h"
#include <chrono>
#include <functional>
#include <list>
#include <string>
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"

using namespace llvm;

struct Abort : std::exception { // tool limit
    std::string msg;
    Abort(const std::string& m) : msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Restart {};
struct PathEnd {};

struct FnInfo {
    std::unordered_map<const Value*, int> num;
    int n = 0;
    std::unique_ptr<DominatorTree> dt;
    std::unique_ptr<LoopInfo> li;
    std::string dem;
    bool inRepo = false;
};

struct Obligation {
    std::string kind, fn, loc, label;
    uint64_t vcs = 0, trivial = 0, smt = 0;
    int status = 0; // 0 ok, 1 failed, 2 unknown
    std::string model;                     // replay text
    std::string detail;
    double ms = 0;
};

struct WriteRec { int obj; bool conc; uint64_t off; unsigned size; bool freed; bool isPtr; };

struct LoopCtx {
    const Loop* L;
    size_t depth; // frame index
    std::vector<StateP> backs;
    std::vector<StateP> exits;
};

struct Var { // loop variable
    bool phi;
    PHINode* p = nullptr;
    int obj = 0;
    uint64_t off = 0;
    unsigned size = 0;
    bool isPtr = false;
    bool objSize = false; // size of pointed object
};

struct Engine {
    Module* M;
    const DataLayout* DL;
    std::map<const llvm::Function*, FnInfo> fninfo;
    std::map<const GlobalVariable*, int> gobj;
    std::map<const llvm::Function*, int> fobj;
    std::map<const GlobalVariable*, std::vector<uint8_t>> gbytes;
    // options (by harness)
    std::vector<std::pair<std::string, int>> unrolls;
    bool loopLocals = false; // vf_unroll("loop-locals", 1): see processLoop
    std::vector<llvm::Function*> inv[4];
    std::vector<llvm::Function*> measures;
    std::vector<std::pair<std::string, llvm::Function*>> classInv;
    std::vector<std::pair<std::string, llvm::Function*>> stubs;
    std::map<const llvm::Function*, llvm::Function*> stubCache;
    std::set<uint64_t> symLoops; // loops known to need invariants (context hash)
    std::map<std::string, uint64_t> funcsExec, funcsStub, externs;
    std::map<std::string, Obligation> obls;
    std::map<std::string, uint64_t> covers;
    std::map<std::string, uint64_t> coverSeen;
    struct LoopRec { std::string fn, loc; uint64_t entries = 0; uint64_t cands = 0, kept = 0; std::string measure; std::string kind; uint64_t backVcs = 0; int termFail = 0; };
    std::map<std::string, LoopRec> loops;
    std::set<std::string> unrolledLoops;
    int quiet = 0;
    std::vector<LoopCtx*> ctx;
    std::vector<std::vector<WriteRec>*> wlogs;
    std::vector<std::vector<expr>*> tlogs; // comparison operands
    int objWatermark = 0;
    uint64_t steps = 0, queries = 0, solverCalls = 0, cacheHits = 0, paths = 0, forks = 0, unknowns = 0;
    double solverMs = 0;
    uint64_t freshId = 0;
    uint64_t maxSteps = 200000000ull;
    double deadline = 0;
    unsigned queryTimeoutMs = 20000;
    std::string harness;
    bool checkTermination = true;
    bool verbose = false;
    std::string undecided;
    std::vector<std::string> warn;
    std::string repoDir = "/repo";
    int maxConcreteIters = 5000;
    size_t curBase = 0;
    std::vector<std::string> bounded; // notes: bounded harness
    std::vector<std::string> termFails;
    std::map<std::string, uint64_t> invNames;
    int maxFailed = 12;
    int bmc = 0;               // > 0: bounded search for a concrete counterexample (no loop cuts)
    bool bmcPruned = false;

    // solver
    std::unordered_map<unsigned, std::shared_ptr<std::set<unsigned>>> fvCache;
    std::vector<expr> keepAlive;
    std::unordered_map<std::string, int> qcache;
    std::list<z3::model> models;
    std::shared_ptr<std::set<unsigned>> freeVars(const expr& e);
    void collectPc(const State& s, std::vector<expr>& out);
    int solve(const std::vector<expr>& cs, bool wantModel, std::unique_ptr<z3::model>* out, unsigned tmo); // 1 sat 0 unsat -1 unknown
    int sat(State& s, const expr& cond);
    int known(State& s, const expr& cond);  // 1/0: in the path condition; -1: not syntactically
    int linUnsat(State& s, const expr& cond);
    bool useGf2 = false;
    uint64_t gf2Hits = 0;
    uint64_t linCalls = 0, linHits = 0;
    double linMs = 0;
    int incCheck(State& s, const expr& cond);
    std::unique_ptr<z3::solver> inc;
    std::vector<std::shared_ptr<const PcNode>> incStack;
    int incFails = 0;
    std::map<std::string, std::pair<double, int>> prof;
    uint64_t incCalls = 0, incHits = 0;
    int decide(State& s, const expr& cond); // 1/0: implied by the path condition; -1: either or unknown
    bool must(State& s, const expr& cond) { return cond.is_true() || sat(s, bnot(cond)) == 0; }
    bool may(State& s, const expr& cond) { return cond.is_true() || sat(s, cond) != 0; }
    void addPc(State& s, const expr& c);

    expr freshBv(unsigned w, const char* n);
    std::shared_ptr<z3::func_decl> freshUf(const char* n);

    // memory
    int newObj(State& s, OK k, const Bv& size, BaseK base, const std::string& name);
    Obj& objW(State& s, int id);
    Content& ctW(State& s, int id);
    Bv readByte(State& s, const Content& ct, const Bv& off);
    Bv readBase(State& s, const Content& ct, const Bv& off);
    Bv readNode(State& s, const Content& ct, const Node* n, const Bv& off);
    Bv readInt(State& s, const Content& ct, const Bv& off, unsigned bytes);
    bool findExact(State& s, const Content& ct, const Bv& off, unsigned size, Val& out);
    Val load(State& s, const Val& ptr, Type* ty);
    void store(State& s, const Val& ptr, const Val& v, Type* ty);
    void writeCell(State& s, int obj, const Bv& off, unsigned size, const Val& v);
    bool access(State& s, const Val& p, const Bv& n, bool write, const char* what);
    void doMemcpy(State& s, const Val& d, const Val& src, const Bv& n);
    void doMemset(State& s, const Val& d, const Bv& c, const Bv& n);
    void flushCells(Content& c);
    void freeObj(State& s, const Val& p, const char* what);
    void logWrite(State& s, int obj, const Bv& off, unsigned size, bool freed = false, bool isPtr = false);
    Bv addrOf(State& s, int obj);
    Bv toInt(State& s, const Val& v);
    Val bytesToVal(State& s, const Bv& b, Type* ty);

    // values
    FnInfo& info(const llvm::Function* f);
    Val eval(State& s, const Value* v);
    Val constVal(State& s, const Constant* c);
    int globalObj(State& s, const GlobalVariable* g);
    int funcObj(State& s, const llvm::Function* f);
    void initBytes(const Constant* c, std::vector<uint8_t>& out, uint64_t off, std::vector<std::pair<uint64_t, const Constant*>>& ptrs);
    void setReg(State& s, const Instruction* I, const Val& v);
    Frame& top(State& s);

    // obligations
    std::string where(State& s, const Instruction* I, std::string* fn = nullptr);
    bool oblige(State& s, const expr& cond, const char* kind, const std::string& label);
    std::string modelText(State& s, const expr& extra, bool& ok);
    void fail(State& s, const char* kind, const std::string& label) { oblige(s, Z->bool_val(false), kind, label); throw PathEnd(); }

    // exec
    void run(llvm::Function* f);
    void explore(std::vector<StateP> init, size_t baseDepth, std::vector<StateP>* finished);
    void step(StateP& s, std::vector<StateP>& out); // runs until fork or end
    void execInst(StateP& s, Instruction* I, std::vector<StateP>& out, bool& cont);
    void enterBlock(StateP& s, BasicBlock* from, BasicBlock* to, std::vector<StateP>& out);
    void transfer(State& s, BasicBlock* from, BasicBlock* to);
    StateP clone(State& s);
    void branch(StateP& s, std::vector<std::pair<expr, BasicBlock*>> alts, BasicBlock* from, std::vector<StateP>& out, bool exiting, const Loop* L);
    void callFn(StateP& s, llvm::Function* f, std::vector<Val> args, CallInst* ci, std::vector<StateP>& out, bool& cont);
    bool intrinsic(StateP& s, llvm::Function* f, std::vector<Val>& args, CallInst* ci, std::vector<StateP>& out, bool& cont);
    void doRet(StateP& s, const Val& v);
    bool forkVal(StateP& s, const expr& c, std::vector<StateP>& out, bool& taken);
    std::string demangle(const std::string& n);
    llvm::Function* stubFor(llvm::Function* f);
    std::string readCStr(State& s, const Val& p);

    // loops
    void processLoop(StateP s, const Loop* L, BasicBlock* from, std::vector<StateP>& out);
    std::map<std::string, std::set<std::string>> dropHist;
    bool traceOn = false;
    bool histOff = false, histUsed = false;
    expr evalPred(State& s, llvm::Function* f, std::vector<Val> args);
    Bv evalTerm(State& s, llvm::Function* f);
    bool hasPtrCells(State& s, const Content& c, int depth = 0);
    const Loop* loopOf(BasicBlock* header);
    uint64_t ctxKey(State& s, BasicBlock* h);
    int unrollLimit(llvm::Function* f, const llvm::Loop* L);

    void report(FILE* f);
};

int gf2Unsat(const expr& c);
