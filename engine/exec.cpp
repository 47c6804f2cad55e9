// symbolic execution of LLVM IR: values, instructions, calls
#include "engine.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <fnmatch.h>

static uint64_t hmix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }

std::string Engine::demangle(const std::string& n) { return llvm::demangle(n); }

FnInfo& Engine::info(const llvm::Function* f)
{
    auto it = fninfo.find(f);
    if (it != fninfo.end()) return it->second;
    FnInfo& fi = fninfo[f];
    for (auto& a : f->args()) fi.num[&a] = fi.n++;
    for (auto& bb : *f)
        for (auto& I : bb)
            if (!I.getType()->isVoidTy()) fi.num[&I] = fi.n++;
    if (!f->isDeclaration()) {
        fi.dt = std::make_unique<DominatorTree>(*const_cast<llvm::Function*>(f));
        fi.li = std::make_unique<LoopInfo>(*fi.dt);
    }
    fi.dem = demangle(f->getName().str());
    if (auto* sp = f->getSubprogram()) {
        std::string p = (sp->getDirectory() + "/" + sp->getFilename()).str();
        if (!sp->getFilename().empty() && sp->getFilename()[0] == '/') p = sp->getFilename().str();
        fi.inRepo = p.find(repoDir + "/") == 0;
    }
    return fi;
}
Frame& Engine::top(State& s)
{
    auto& p = s.frames.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
}
StateP Engine::clone(State& s) { return std::make_unique<State>(s); }

int Engine::known(State& s, const expr& c)
{
    if (c.is_true()) return 1;
    if (c.is_false()) return 0;
    expr n = bnot(c);
    for (auto* p = s.pc.get(); p; p = p->next.get()) {
        if (z3::eq(p->e, c)) return 1;
        if (z3::eq(p->e, n)) return 0;
    }
    return -1;
}
int Engine::decide(State& s, const expr& c)
{
    int k = known(s, c);
    if (k >= 0) return k;
    int r = -1;
    // what recent models say narrows it to one question
    bool canT = false, canF = false;
    if (s.model) { expr v = s.model->eval(c, true); if (v.is_true()) canT = true; else if (v.is_false()) canF = true; }
    if (!canT && linUnsat(s, c) == 0) r = 0;
    else if (!canF && linUnsat(s, bnot(c)) == 0) r = 1;
    return r;
}
void Engine::addPc(State& s, const expr& c)
{
    if (c.is_true()) return;
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) {
        for (unsigned i = 0; i < c.num_args(); i++) addPc(s, c.arg(i));
        return;
    }
    s.pc = std::make_shared<PcNode>(c, s.pc);
    if (s.model) {
        expr v = s.model->eval(c, true);
        if (!v.is_true()) s.model = nullptr;
    }
}

// ------------------------------------------------------------------ constants
int Engine::funcObj(State& s, const llvm::Function* f)
{
    auto it = fobj.find(f);
    if (it == fobj.end()) throw Abort("function object missing: " + f->getName().str());
    return it->second;
}
int Engine::globalObj(State& s, const GlobalVariable* g)
{
    auto it = gobj.find(g);
    if (it == gobj.end()) throw Abort("global object missing: " + g->getName().str());
    return it->second;
}
void Engine::initBytes(const Constant* c, std::vector<uint8_t>& out, uint64_t off, std::vector<std::pair<uint64_t, const Constant*>>& ptrs)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        unsigned n = (ci->getBitWidth() + 7) / 8;
        for (unsigned j = 0; j < n; j++) out[off + j] = (uint8_t)ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - 8 * j), 8 * j);
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        for (unsigned j = 0; j < a.getBitWidth() / 8; j++) out[off + j] = (uint8_t)a.extractBitsAsZExtValue(8, 8 * j);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(cd->getElementAsConstant(i), out, off + i * es, ptrs);
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), out, off + sl->getElementOffset(i), ptrs);
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), out, off + i * es, ptrs);
        return;
    }
    if (c->getType()->isPointerTy() || c->getType()->isIntegerTy()) { ptrs.push_back({ off, c }); return; }
    throw Abort("unsupported initializer");
}
Val Engine::constVal(State& s, const Constant* c)
{
    Type* ty = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            const APInt& a = ci->getValue();
            Bv r(64, a.extractBitsAsZExtValue(64, 0));
            unsigned done = 64;
            while (done < a.getBitWidth()) { unsigned k = std::min(64u, a.getBitWidth() - done); r = bvConcat(Bv(k, a.extractBitsAsZExtValue(k, done)), r); done += k; }
            return Val::mkInt(r);
        }
        return Val::mkInt(Bv(ci->getBitWidth(), ci->getZExtValue()));
    }
    if (isa<ConstantPointerNull>(c)) return Val::mkNull();
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() > 64) throw Abort("long double");
        return Val::mkInt(Bv(a.getBitWidth(), a.getZExtValue()));
    }
    if (auto* gv = dyn_cast<GlobalVariable>(c)) return Val::mkPtr(globalObj(s, gv), Bv(64, 0));
    if (auto* f = dyn_cast<llvm::Function>(c)) return Val::mkPtr(funcObj(s, f), Bv(64, 0));
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(s, ga->getAliasee());
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        bool zero = isa<ConstantAggregateZero>(c);
        if (ty->isPointerTy()) return Val::mkNull();
        if (ty->isIntegerTy()) return zero ? Val::mkInt(Bv(ty->getIntegerBitWidth(), 0)) : Val::mkInt(Bv::sym(freshBv(ty->getIntegerBitWidth(), "undef")));
        if (ty->isFloatTy() || ty->isDoubleTy()) return Val::mkInt(Bv(ty->isFloatTy() ? 32 : 64, 0));
        if (ty->isStructTy() || ty->isArrayTy()) {
            Val r; r.k = VK::Agg; r.agg = std::make_shared<std::vector<Val>>();
            unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(s, c->getAggregateElement(i)));
            return r;
        }
        throw Abort("undef of unsupported type");
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        if (ty->isVectorTy()) throw Abort("vector constant");
        Val r; r.k = VK::Agg; r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(s, c->getAggregateElement(i)));
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) throw Abort("gep constexpr");
            Val b = constVal(s, cast<Constant>(gep->getPointerOperand()));
            return Val::mkPtr(b.obj, bvAdd(b.i, Bv(64, off.getZExtValue())));
        }
        case Instruction::PtrToInt: {
            Val b = constVal(s, ce->getOperand(0));
            Val r = Val::mkInt(toInt(s, b));
            if (b.obj) { r.obj = b.obj; r.poff = b.i; }
            return r;
        }
        case Instruction::IntToPtr: {
            Val b = constVal(s, ce->getOperand(0));
            if (b.obj) return Val::mkPtr(b.obj, b.poff);
            return Val::mkPtr(0, b.i.w < 64 ? bvZext(b.i, 64) : b.i);
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return constVal(s, ce->getOperand(0));
        case Instruction::Sub:
        case Instruction::Add: {
            Val a = constVal(s, ce->getOperand(0)), b = constVal(s, ce->getOperand(1));
            if (ce->getOpcode() == Instruction::Sub && a.obj && a.obj == b.obj) return Val::mkInt(bvSub(a.poff, b.poff));
            return Val::mkInt(bvBin(ce->getOpcode() == Instruction::Sub ? BO::Sub : BO::Add, a.i, b.i));
        }
        case Instruction::Trunc: { Val a = constVal(s, ce->getOperand(0)); return Val::mkInt(bvExtract(a.i, ty->getIntegerBitWidth() - 1, 0)); }
        default: break;
        }
        throw Abort(std::string("constexpr ") + ce->getOpcodeName());
    }
    throw Abort("unsupported constant");
}
Val Engine::eval(State& s, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    Frame& f = *s.frames.back();
    auto& fi = info(f.fn);
    auto it = fi.num.find(v);
    if (it == fi.num.end()) throw Abort("value without register");
    const Val& r = f.regs[it->second];
    if (r.k == VK::None) throw Abort("read of unset register in " + fi.dem);
    return r;
}
void Engine::setReg(State& s, const Instruction* I, const Val& v)
{
    Frame& f = top(s);
    f.regs[info(f.fn).num[I]] = v;
}
std::string Engine::readCStr(State& s, const Val& p)
{
    std::string r;
    if (p.obj == 0) throw Abort("string null");
    auto ct = s.objs[p.obj]->ct;
    for (uint64_t i = 0; i < 4096; i++) {
        Bv b = readByte(s, *ct, bvAdd(p.i, Bv(64, i)));
        if (!b.c) throw Abort("symbolic string literal");
        if (!b.v) return r;
        r.push_back((char)b.v);
    }
    throw Abort("string too long");
}
std::string Engine::where(State& s, const Instruction*, std::string* fn)
{
    // innermost frame located in the repository or the harness
    for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
        Frame& f = *s.frames[i];
        auto& fi = info(f.fn);
        std::string file;
        unsigned line = 0;
        const Instruction* I = nullptr;
        if (f.it != f.bb->end()) {
            I = &*f.it;
            if (i + 1 < (int)s.frames.size() && s.frames[i + 1]->callsite) I = s.frames[i + 1]->callsite;
        }
        if (I && I->getDebugLoc()) {
            auto* sc = I->getDebugLoc()->getScope()->getSubprogram();
            std::string p = sc->getFilename().str();
            if (!p.empty() && p[0] != '/') p = (sc->getDirectory() + "/" + sc->getFilename()).str();
            file = p; line = I->getDebugLoc().getLine();
            if (auto* f2 = dyn_cast<DIScope>(I->getDebugLoc()->getScope())) { std::string q = f2->getFilename().str(); if (!q.empty() && q[0] == '/') file = q; }
        }
        bool repo = fi.inRepo || file.find(repoDir + "/") == 0;
        bool har = file.find("/harness/") != std::string::npos;
        if (repo || har || i == 0) {
            if (fn) *fn = fi.dem;
            if (file.find(repoDir + "/") == 0) file = file.substr(repoDir.size() + 1);
            else if (har) file = file.substr(file.find("/harness/") + 1);
            return file + ":" + std::to_string(line);
        }
    }
    return "?";
}

// ------------------------------------------------------------------ control flow
const Loop* Engine::loopOf(BasicBlock* h)
{
    auto& li = *info(h->getParent()).li;
    const Loop* L = li.getLoopFor(h);
    return (L && L->getHeader() == h) ? L : nullptr;
}
uint64_t Engine::ctxKey(State& s, BasicBlock* h) { return hmix(s.frames.back()->ctxHash, (uint64_t)(uintptr_t)h); }
int Engine::unrollLimit(llvm::Function* f, const Loop* L)
{
    auto& fi = info(f);
    int def = 6, best = -1000000;
    for (auto& u : unrolls) {
        if (u.first == "*") { def = u.second; continue; }
        std::string pat = u.first;
        if (auto h = pat.find('#'); h != std::string::npos) {
            // "fn#2": only the loops nested at least that deep
            if (!L || (int)L->getLoopDepth() < atoi(pat.c_str() + h + 1)) continue;
            pat.resize(h);
        }
        if (fi.dem.find(pat) != std::string::npos || fnmatch(pat.c_str(), fi.dem.c_str(), 0) == 0) best = u.second;
    }
    return best == -1000000 ? def : best;
}
void Engine::transfer(State& s, BasicBlock* from, BasicBlock* to)
{
    Frame& f = top(s);
    std::vector<std::pair<int, Val>> upd;
    auto& fi = info(f.fn);
    for (auto& phi : to->phis()) {
        Value* v = phi.getIncomingValueForBlock(from);
        if (isa<UndefValue>(v) && !isa<PoisonValue>(v) && phi.getType()->isPointerTy()) upd.push_back({ fi.num[&phi], Val::mkNull() });
        else upd.push_back({ fi.num[&phi], eval(s, v) });
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    f.prev = from;
    f.bb = to;
    f.it = to->getFirstNonPHI()->getIterator();
}
void Engine::enterBlock(StateP& s, BasicBlock* from, BasicBlock* to, std::vector<StateP>& out)
{
    if (!ctx.empty()) {
        LoopCtx* c = ctx.back();
        if (s->frames.size() == c->depth && c->L->contains(from)) {
            if (to == c->L->getHeader()) { s->pendFrom = from; s->pendTo = to; c->backs.push_back(std::move(s)); return; }
            if (!c->L->contains(to)) { s->pendFrom = from; s->pendTo = to; c->exits.push_back(std::move(s)); return; }
        }
    }
    const Loop* L = loopOf(to);
    if (L) {
        Frame& f = top(*s);
        if (!L->contains(from)) {
            f.iters[to] = 0;
            f.symIters[to] = 0;
            int lim = unrollLimit(f.fn, L);
            if (lim < 0 && !bmc) symLoops.insert(ctxKey(*s, to));
            if (!bmc && symLoops.count(ctxKey(*s, to))) { processLoop(std::move(s), L, from, out); return; }
        } else {
            int n = ++f.iters[to];
            int& sy = f.symIters[to];
            bool concExit = sy & 1, symExit = sy & 2;
            int cnt = sy >> 2;
            if (symExit && !concExit) cnt++;
            sy = cnt << 2;
            if (bmc) {
                if (cnt > bmc || n > maxConcreteIters) { bmcPruned = true; throw PathEnd(); }
            } else if (cnt > unrollLimit(f.fn, L) || n > maxConcreteIters) {
                if (n > maxConcreteIters && verbose) errs() << "concrete iteration limit in " << info(f.fn).dem << "\n";
                symLoops.insert(ctxKey(*s, to));
                if (verbose) errs() << "  loop needs invariant: " << info(f.fn).dem << " at " << where(*s, nullptr) << "\n";
                throw Restart();
            }
            if (n == 1) unrolledLoops.insert(where(*s, nullptr) + " in " + info(f.fn).dem);
        }
    }
    transfer(*s, from, to);
}
void Engine::branch(StateP& s, std::vector<std::pair<expr, BasicBlock*>> alts, BasicBlock* from, std::vector<StateP>& out, bool, const Loop*)
{
    // feasible alternatives
    std::vector<std::pair<expr, BasicBlock*>> feas;
    bool conc = false;
    for (size_t i = 0; i < alts.size(); i++) {
        auto& a = alts[i];
        if (a.first.is_false()) continue;
        if (a.first.is_true()) { feas.clear(); feas.push_back(a); conc = true; break; }
        bool last = i + 1 == alts.size();
        if (last && feas.empty()) { feas.push_back(a); break; } // others infeasible
        if (sat(*s, a.first) != 0) feas.push_back(a);
    }
    if (feas.empty()) throw PathEnd();
    if (traceOn) {
        auto I = from->getTerminator();
        auto tn = std::make_shared<TrNode>();
        tn->t = info(from->getParent()).dem.substr(0, 90) + ":" + (I->getDebugLoc() ? std::to_string(I->getDebugLoc().getLine()) : "?") + (feas.size() > 1 ? " FORK " : " ");
        for (auto& a : feas) for (unsigned k = 0; k < alts.size(); k++) if (alts[k].second == a.second) { tn->t += std::to_string(k); break; }
        tn->prev = s->tr;
        s->tr = tn;
    }
    // note exits for loop statistics
    if (alts.size() > 1) {
        auto& li = *info(from->getParent()).li;
        for (const Loop* L = li.getLoopFor(from); L; L = L->getParentLoop()) {
            bool exits = false;
            for (auto& a : alts) if (!L->contains(a.second)) exits = true;
            if (!exits) continue;
            bool ex = false, in = false;
            for (auto& a : feas) (L->contains(a.second) ? in : ex) = true;
            int& sy = top(*s).symIters[L->getHeader()];
            if (ex && in) sy |= 2;
            else if (conc) sy |= 1;
        }
    }
    // group same targets
    for (size_t i = 0; i + 1 < feas.size(); i++) {
        forks++;
        StateP c = clone(*s);
        addPc(*c, feas[i].first);
        c->pendFrom = from;
        c->pendTo = feas[i].second;
        out.push_back(std::move(c));
    }
    if (feas.size() > 1 || !conc) addPc(*s, feas.back().first);
    enterBlock(s, from, feas.back().second, out);
}
void Engine::explore(std::vector<StateP> init, size_t baseDepth, std::vector<StateP>* finished)
{
    std::vector<StateP> work = std::move(init);
    size_t saveBase = curBase;
    curBase = baseDepth;
    struct R { size_t& a; size_t b; ~R() { a = b; } } r{ curBase, saveBase };
    while (!work.empty()) {
        StateP s = std::move(work.back());
        work.pop_back();
        try {
            step(s, work);
        } catch (PathEnd&) {
            paths++;
            continue;
        }
        if (s && s->finished) {
            if (finished) finished->push_back(std::move(s));
            paths++;
        }
    }
}
void Engine::step(StateP& s, std::vector<StateP>& out)
{
    if (s->pendTo) {
        BasicBlock *a = s->pendFrom, *b = s->pendTo;
        s->pendFrom = s->pendTo = nullptr;
        if (a) enterBlock(s, a, b, out);
        else { Frame& f = top(*s); f.bb = b; f.it = b->getFirstNonPHI()->getIterator(); } // loop start: phis set
        if (!s) return;
    }
    while (s && !s->finished) {
        Frame& f = top(*s);
        Instruction* I = &*f.it;
        if ((++steps & 1023) == 0) {
            double now = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
            if (now > deadline) throw Abort("time limit");
            if (steps > maxSteps) throw Abort("step limit");
        }
        bool cont = true;
        execInst(s, I, out, cont);
        if (!s) return;
        if (cont) { Frame& g = top(*s); ++g.it; }
    }
}
// fork the state on a boolean; s continues with c true (taken) or false
bool Engine::forkVal(StateP& s, const expr& c, std::vector<StateP>& out, bool& taken)
{
    if (c.is_true()) { taken = true; return true; }
    if (c.is_false()) { taken = false; return true; }
    int t = sat(*s, c);
    if (t == 0) { taken = false; addPc(*s, bnot(c)); return true; }
    int e = sat(*s, bnot(c));
    if (e == 0) { taken = true; addPc(*s, c); return true; }
    StateP o = clone(*s);
    addPc(*o, bnot(c));
    o->pendFrom = nullptr;
    // re-execute the instruction in the other state: its condition is now decided
    out.push_back(std::move(o));
    addPc(*s, c);
    forks++;
    taken = true;
    return true;
}
static expr fpOf(const Bv& b, bool dbl)
{
    z3::sort so = dbl ? Z->fpa_sort<64>() : Z->fpa_sort<32>();
    return expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, b.ex(), so));
}
static Bv bvOfFp(const expr& e) { return Bv::sym(expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, e)).simplify()); }

void Engine::doRet(StateP& s, const Val& v)
{
    Frame& f = top(*s);
    CallInst* ci = f.callsite;
    for (int a : f.allocas) { logWrite(*s, a, Bv(64, 0), 0, true); s->objs[a] = nullptr; }
    s->frames.pop_back();
    if (s->frames.size() < curBase || s->frames.empty()) {
        s->retval = v;
        s->finished = true;
        return;
    }
    if (ci) {
        if (!ci->getType()->isVoidTy()) setReg(*s, ci, v);
        Frame& g = top(*s);
        ++g.it;
    }
}
static expr icmpExpr(CmpInst::Predicate p, const Bv& a, const Bv& b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return bvCmp(CMP::EQ, a, b);
    case CmpInst::ICMP_NE: return bvCmp(CMP::NE, a, b);
    case CmpInst::ICMP_UGT: return bvCmp(CMP::ULT, b, a);
    case CmpInst::ICMP_UGE: return bvCmp(CMP::ULE, b, a);
    case CmpInst::ICMP_ULT: return bvCmp(CMP::ULT, a, b);
    case CmpInst::ICMP_ULE: return bvCmp(CMP::ULE, a, b);
    case CmpInst::ICMP_SGT: return bvCmp(CMP::SLT, b, a);
    case CmpInst::ICMP_SGE: return bvCmp(CMP::SLE, b, a);
    case CmpInst::ICMP_SLT: return bvCmp(CMP::SLT, a, b);
    case CmpInst::ICMP_SLE: return bvCmp(CMP::SLE, a, b);
    default: throw Abort("icmp pred");
    }
}
void Engine::execInst(StateP& sp, Instruction* I, std::vector<StateP>& out, bool& cont)
{
    State& s = *sp;
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(I);
        uint64_t es = DL->getTypeAllocSize(ai->getAllocatedType());
        Bv n = eval(s, ai->getArraySize()).i;
        if (n.w < 64) n = bvZext(n, 64);
        Bv size = bvBin(BO::Mul, n, Bv(64, es));
        int o = newObj(s, OK::Stack, size, BaseK::Uninit, ai->getName().str());
        s.objs[o]->ty = ai->getAllocatedType();
        s.objs[o]->align = (int)std::min<uint64_t>(ai->getAlign().value(), 4096);
        top(s).allocas.push_back(o);
        setReg(s, I, Val::mkPtr(o, Bv(64, 0)));
        return;
    }
    case Instruction::Load: {
        auto* li = cast<LoadInst>(I);
        setReg(s, I, load(s, eval(s, li->getPointerOperand()), li->getType()));
        return;
    }
    case Instruction::Store: {
        auto* si = cast<StoreInst>(I);
        store(s, eval(s, si->getPointerOperand()), eval(s, si->getValueOperand()), si->getValueOperand()->getType());
        return;
    }
    case Instruction::GetElementPtr: {
        auto* gep = cast<GetElementPtrInst>(I);
        if (gep->getType()->isVectorTy()) throw Abort("vector gep");
        Val b = eval(s, gep->getPointerOperand());
        Bv off = b.i;
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (auto* st = gi.getStructTypeOrNull()) {
                unsigned fno = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
                off = bvAdd(off, Bv(64, DL->getStructLayout(st)->getElementOffset(fno)));
            } else {
                uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                Val iv = eval(s, idx);
                Bv x = iv.i.w < 64 ? bvSext(iv.i, 64) : iv.i;
                off = bvAdd(off, bvBin(BO::Mul, x, Bv(64, es)));
            }
        }
        setReg(s, I, Val::mkPtr(b.obj, off));
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem:
    case Instruction::SDiv: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (I->getType()->isVectorTy()) throw Abort("vector op");
        Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
        BO op;
        switch (I->getOpcode()) {
        case Instruction::Add: op = BO::Add; break;
        case Instruction::Sub: op = BO::Sub; break;
        case Instruction::Mul: op = BO::Mul; break;
        case Instruction::UDiv: op = BO::UDiv; break;
        case Instruction::URem: op = BO::URem; break;
        case Instruction::SDiv: op = BO::SDiv; break;
        case Instruction::SRem: op = BO::SRem; break;
        case Instruction::And: op = BO::And; break;
        case Instruction::Or: op = BO::Or; break;
        case Instruction::Xor: op = BO::Xor; break;
        case Instruction::Shl: op = BO::Shl; break;
        case Instruction::LShr: op = BO::LShr; break;
        default: op = BO::AShr; break;
        }
        if (op == BO::UDiv || op == BO::URem || op == BO::SDiv || op == BO::SRem)
            oblige(s, bvCmp(CMP::NE, b.i, Bv(b.i.w, 0)), "div-by-zero", "");
        if (op == BO::Shl || op == BO::LShr || op == BO::AShr)
            if (!b.i.c || b.i.v >= b.i.w) oblige(s, bvCmp(CMP::ULT, b.i, Bv(b.i.w, b.i.w)), "shift-range", "");
        Val r;
        if (op == BO::Sub && a.obj && a.obj == b.obj) r = Val::mkInt(bvSub(a.poff, b.poff));
        else {
            r = Val::mkInt(bvBin(op, a.i, b.i));
            if (op == BO::Add && (a.obj != 0) != (b.obj != 0)) {
                r.obj = a.obj ? a.obj : b.obj;
                r.poff = a.obj ? bvAdd(a.poff, b.i) : bvAdd(b.poff, a.i);
            } else if (op == BO::Sub && a.obj && !b.obj) {
                r.obj = a.obj;
                r.poff = bvSub(a.poff, b.i);
            }
        }
        setReg(s, I, r);
        return;
    }
    case Instruction::ICmp: {
        auto* ic = cast<ICmpInst>(I);
        if (ic->getOperand(0)->getType()->isVectorTy()) throw Abort("vector icmp");
        Val a = eval(s, ic->getOperand(0)), b = eval(s, ic->getOperand(1));
        auto p = ic->getPredicate();
        expr r = Z->bool_val(false);
        auto norm = [&](Val& v) { if (v.k == VK::Int && v.obj) { v.k = VK::Ptr; v.i = v.poff; } };
        if (a.obj || b.obj) { norm(a); norm(b); }
        if (a.obj || b.obj) {
            bool eqop = ic->isEquality();
            if (a.obj == b.obj) {
                if (!tlogs.empty()) for (auto* t : tlogs) { if (!a.i.c) t->push_back(a.i.ex()); if (!b.i.c) t->push_back(b.i.ex()); }
                if (eqop) r = icmpExpr(p, a.i, b.i);
                else { // offsets are signed distances
                    CmpInst::Predicate q = p;
                    r = icmpExpr(q, a.i, b.i);
                }
            } else if (eqop) {
                bool isnull = (a.obj == 0 && a.i.c && a.i.v == 0) || (b.obj == 0 && b.i.c && b.i.v == 0);
                bool raw = (a.obj == 0 || b.obj == 0) && !isnull;
                if (raw) r = icmpExpr(p, toInt(s, a), toInt(s, b));
                else r = Z->bool_val(p == CmpInst::ICMP_NE);
            } else {
                // two objects do not overlap: one lies below the other as a whole
                auto in = [&](const Val& v) { auto* o = v.obj < s.objs.size() ? s.objs[v.obj].get() : nullptr; return v.obj && o && v.i.c && o->size.c && v.i.v <= o->size.v; };
                if (in(a) && in(b)) {
                    const bool sw = a.obj > b.obj, lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
                    expr below = Z->bool_const(("addrlt_" + std::to_string(sw ? b.obj : a.obj) + "_" + std::to_string(sw ? a.obj : b.obj)).c_str());
                    r = sw == lt ? bnot(below) : below;
                } else r = icmpExpr(p, toInt(s, a), toInt(s, b));
            }
        } else {
            if (!tlogs.empty() && a.i.w > 1)
                for (auto* t : tlogs) { t->push_back(a.i.ex()); t->push_back(b.i.ex()); }
            r = icmpExpr(p, a.i, b.i);
        }
        setReg(s, I, Val::mkInt(fromBool(r)));
        return;
    }
    case Instruction::Select: {
        auto* si = cast<SelectInst>(I);
        Val c = eval(s, si->getCondition());
        if (si->getType()->isVectorTy()) throw Abort("vector select");
        Val a = eval(s, si->getTrueValue()), b = eval(s, si->getFalseValue());
        expr ce = toBool(c.i);
        int kn = known(s, ce);
        if (kn >= 0) ce = Z->bool_val(kn == 1);
        if (ce.is_true()) { setReg(s, I, a); return; }
        if (ce.is_false()) { setReg(s, I, b); return; }
        if (a.k == VK::Int && !a.obj && !b.obj) { setReg(s, I, Val::mkInt(bvIte(ce, a.i, b.i))); return; }
        if (a.k == VK::Ptr && a.obj == b.obj) { setReg(s, I, Val::mkPtr(a.obj, bvIte(ce, a.i, b.i))); return; }
        bool t;
        forkVal(sp, ce, out, t);
        setReg(*sp, I, t ? a : b);
        return;
    }
    case Instruction::Trunc: {
        Val a = eval(s, I->getOperand(0));
        setReg(s, I, Val::mkInt(bvExtract(a.i, I->getType()->getIntegerBitWidth() - 1, 0)));
        return;
    }
    case Instruction::ZExt: {
        Val a = eval(s, I->getOperand(0));
        setReg(s, I, Val::mkInt(bvZext(a.i, I->getType()->getIntegerBitWidth())));
        return;
    }
    case Instruction::SExt: {
        Val a = eval(s, I->getOperand(0));
        setReg(s, I, Val::mkInt(bvSext(a.i, I->getType()->getIntegerBitWidth())));
        return;
    }
    case Instruction::PtrToInt: {
        Val a = eval(s, I->getOperand(0));
        Val r = Val::mkInt(toInt(s, a));
        unsigned w = I->getType()->getIntegerBitWidth();
        if (w != 64) r = Val::mkInt(w < 64 ? bvExtract(r.i, w - 1, 0) : bvZext(r.i, w));
        else if (a.obj) { r.obj = a.obj; r.poff = a.i; }
        setReg(s, I, r);
        return;
    }
    case Instruction::IntToPtr: {
        Val a = eval(s, I->getOperand(0));
        if (a.obj) setReg(s, I, Val::mkPtr(a.obj, a.poff));
        else setReg(s, I, Val::mkPtr(0, a.i.w < 64 ? bvZext(a.i, 64) : a.i));
        return;
    }
    case Instruction::BitCast:
    case Instruction::Freeze: {
        if (I->getType()->isVectorTy()) throw Abort("vector cast");
        setReg(s, I, eval(s, I->getOperand(0)));
        return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: {
        if (!I->getType()->isDoubleTy() && !I->getType()->isFloatTy()) throw Abort("fp type");
        bool dbl = I->getType()->isDoubleTy();
        expr a = fpOf(eval(s, I->getOperand(0)).i, dbl);
        expr rm(*Z, Z3_mk_fpa_rne(*Z));
        if (I->getOpcode() == Instruction::FNeg) { setReg(s, I, Val::mkInt(bvOfFp(-a))); return; }
        expr b = fpOf(eval(s, I->getOperand(1)).i, dbl);
        Z3_ast r;
        switch (I->getOpcode()) {
        case Instruction::FAdd: r = Z3_mk_fpa_add(*Z, rm, a, b); break;
        case Instruction::FSub: r = Z3_mk_fpa_sub(*Z, rm, a, b); break;
        case Instruction::FMul: r = Z3_mk_fpa_mul(*Z, rm, a, b); break;
        default: r = Z3_mk_fpa_div(*Z, rm, a, b); break;
        }
        setReg(s, I, Val::mkInt(bvOfFp(expr(*Z, r))));
        return;
    }
    case Instruction::FCmp: {
        auto* fc = cast<FCmpInst>(I);
        bool dbl = fc->getOperand(0)->getType()->isDoubleTy();
        expr a = fpOf(eval(s, I->getOperand(0)).i, dbl), b = fpOf(eval(s, I->getOperand(1)).i, dbl);
        auto mk = [&](Z3_ast x) { return expr(*Z, x); };
        expr eq = mk(Z3_mk_fpa_eq(*Z, a, b)), lt = mk(Z3_mk_fpa_lt(*Z, a, b)), gt = mk(Z3_mk_fpa_gt(*Z, a, b));
        expr uno = mk(Z3_mk_fpa_is_nan(*Z, a)) || mk(Z3_mk_fpa_is_nan(*Z, b));
        expr r = Z->bool_val(false);
        unsigned p = fc->getPredicate();
        if (p & 1) r = r || eq;
        if (p & 2) r = r || gt;
        if (p & 4) r = r || lt;
        if (p & 8) r = r || uno;
        setReg(s, I, Val::mkInt(fromBool(r.simplify())));
        return;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
        bool dbl = I->getType()->isDoubleTy();
        z3::sort so = dbl ? Z->fpa_sort<64>() : Z->fpa_sort<32>();
        expr rm(*Z, Z3_mk_fpa_rne(*Z));
        expr x = eval(s, I->getOperand(0)).i.ex();
        Z3_ast r = I->getOpcode() == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(*Z, rm, x, so) : Z3_mk_fpa_to_fp_unsigned(*Z, rm, x, so);
        setReg(s, I, Val::mkInt(bvOfFp(expr(*Z, r))));
        return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool dbl = I->getOperand(0)->getType()->isDoubleTy();
        unsigned w = I->getType()->getIntegerBitWidth();
        expr rm(*Z, Z3_mk_fpa_rtz(*Z));
        expr x = fpOf(eval(s, I->getOperand(0)).i, dbl);
        Z3_ast r = I->getOpcode() == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(*Z, rm, x, w) : Z3_mk_fpa_to_ubv(*Z, rm, x, w);
        setReg(s, I, Val::mkInt(Bv::sym(expr(*Z, r).simplify())));
        return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        bool to = I->getType()->isDoubleTy(), fr = I->getOperand(0)->getType()->isDoubleTy();
        expr rm(*Z, Z3_mk_fpa_rne(*Z));
        expr x = fpOf(eval(s, I->getOperand(0)).i, fr);
        z3::sort so = to ? Z->fpa_sort<64>() : Z->fpa_sort<32>();
        setReg(s, I, Val::mkInt(bvOfFp(expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rm, x, so)))));
        return;
    }
    case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I);
        Val a = eval(s, ev->getAggregateOperand());
        for (unsigned i : ev->indices()) { Val b = (*a.agg)[i]; a = b; }
        setReg(s, I, a);
        return;
    }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I);
        Val a = eval(s, iv->getAggregateOperand());
        Val v = eval(s, iv->getInsertedValueOperand());
        std::function<Val(const Val&, unsigned)> ins = [&](const Val& x, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return v;
            Val r = x;
            r.agg = std::make_shared<std::vector<Val>>(*x.agg);
            (*r.agg)[iv->getIndices()[d]] = ins((*x.agg)[iv->getIndices()[d]], d + 1);
            return r;
        };
        setReg(s, I, ins(a, 0));
        return;
    }
    case Instruction::Br: {
        auto* br = cast<BranchInst>(I);
        cont = false;
        if (br->isUnconditional()) { enterBlock(sp, I->getParent(), br->getSuccessor(0), out); return; }
        expr c = toBool(eval(s, br->getCondition()).i);
        branch(sp, { { c, br->getSuccessor(0) }, { bnot(c), br->getSuccessor(1) } }, I->getParent(), out, false, nullptr);
        return;
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        cont = false;
        Bv v = eval(s, sw->getCondition()).i;
        if (v.c) {
            auto it = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v.v));
            enterBlock(sp, I->getParent(), it->getCaseSuccessor(), out);
            return;
        }
        std::map<BasicBlock*, expr> m;
        std::vector<BasicBlock*> ord;
        expr rest = Z->bool_val(true);
        for (auto& c : sw->cases()) {
            expr e = bvCmp(CMP::EQ, v, Bv(v.w, c.getCaseValue()->getZExtValue()));
            rest = band(rest, bnot(e));
            auto it = m.find(c.getCaseSuccessor());
            if (it == m.end()) { m.emplace(c.getCaseSuccessor(), e); ord.push_back(c.getCaseSuccessor()); }
            else it->second = bor(it->second, e);
        }
        BasicBlock* d = sw->getDefaultDest();
        auto it = m.find(d);
        if (it == m.end()) { m.emplace(d, rest); ord.push_back(d); }
        else it->second = bor(it->second, rest);
        std::vector<std::pair<expr, BasicBlock*>> alts;
        for (auto* b : ord) alts.push_back({ m.at(b), b });
        branch(sp, alts, I->getParent(), out, false, nullptr);
        return;
    }
    case Instruction::Ret: {
        auto* r = cast<ReturnInst>(I);
        cont = false;
        Val v;
        if (r->getReturnValue()) v = eval(s, r->getReturnValue());
        doRet(sp, v);
        return;
    }
    case Instruction::Unreachable: {
        if (quiet == 0) fail(s, "unreachable", "unreachable code reached");
        throw PathEnd();
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
        auto* a = cast<AtomicRMWInst>(I);
        Val p = eval(s, a->getPointerOperand()), v = eval(s, a->getValOperand());
        Val old = load(s, p, a->getType());
        Val nv;
        switch (a->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = Val::mkInt(bvAdd(old.i, v.i)); break;
        case AtomicRMWInst::Sub: nv = Val::mkInt(bvSub(old.i, v.i)); break;
        case AtomicRMWInst::And: nv = Val::mkInt(bvBin(BO::And, old.i, v.i)); break;
        case AtomicRMWInst::Or: nv = Val::mkInt(bvBin(BO::Or, old.i, v.i)); break;
        default: throw Abort("atomicrmw op");
        }
        store(s, p, nv, a->getType());
        setReg(s, I, old);
        return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* a = cast<AtomicCmpXchgInst>(I);
        Val p = eval(s, a->getPointerOperand()), c = eval(s, a->getCompareOperand()), n = eval(s, a->getNewValOperand());
        Type* ty = a->getCompareOperand()->getType();
        Val old = load(s, p, ty);
        if (old.k != VK::Int || old.obj) throw Abort("pointer cmpxchg");
        expr eq = bvCmp(CMP::EQ, old.i, c.i);
        store(s, p, Val::mkInt(bvIte(eq, n.i, old.i)), ty);
        Val r; r.k = VK::Agg; r.agg = std::make_shared<std::vector<Val>>();
        r.agg->push_back(old);
        r.agg->push_back(Val::mkInt(fromBool(eq)));
        setReg(s, I, r);
        return;
    }
    case Instruction::VAArg: throw Abort("va_arg");
    case Instruction::Call: {
        auto* ci = cast<CallInst>(I);
        if (ci->isInlineAsm()) {
            if (ci->getType()->isVoidTy()) return;
            throw Abort("inline asm");
        }
        llvm::Function* f = ci->getCalledFunction();
        if (!f) {
            Value* cv = ci->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            f = dyn_cast<llvm::Function>(cv);
        }
        if (f && f->getName().starts_with("llvm.dbg")) return;
        if (!f) {
            Val p = eval(s, ci->getCalledOperand());
            if (p.obj == 0) fail(s, "call-null", "call through null/unknown pointer");
            Obj* o = s.objs[p.obj].get();
            if (!o || o->kind != OK::Func || !p.i.c || p.i.v) fail(s, "bad-call", "call through non-function pointer");
            f = o->fn;
        }
        std::vector<Val> args;
        for (unsigned i = 0; i < ci->arg_size(); i++) {
            if (ci->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
            Val v = eval(s, ci->getArgOperand(i));
            if (ci->isByValArgument(i)) {
                Type* t = ci->getParamByValType(i);
                uint64_t sz = DL->getTypeAllocSize(t);
                int o = newObj(s, OK::Stack, Bv(64, sz), BaseK::Uninit, "byval");
                top(s).allocas.push_back(o);
                Val d = Val::mkPtr(o, Bv(64, 0));
                doMemcpy(s, d, v, Bv(64, sz));
                v = d;
            }
            args.push_back(v);
        }
        callFn(sp, f, args, ci, out, cont);
        return;
    }
    default: break;
    }
    throw Abort(std::string("unsupported instruction ") + I->getOpcodeName());
}
llvm::Function* Engine::stubFor(llvm::Function* f)
{
    auto it = stubCache.find(f);
    if (it != stubCache.end()) return it->second;
    llvm::Function* r = nullptr;
    std::string d = demangle(f->getName().str());
    std::string base = d;
    int depth = 0;
    size_t opp = d.find("operator");
    for (size_t i = 0; i < d.size(); i++) {
        if (opp != std::string::npos && i == opp) { // skip operator token
            i += 8;
            while (i < d.size() && d[i] != '(' && !isalnum(d[i]) && d[i] != '_' && d[i] != ' ') i++;
            if (i + 1 < d.size() && d[i] == '(' && d[i + 1] == ')' ) { i++; continue; }
        }
        if (d[i] == '<') depth++;
        else if (d[i] == '>') depth--;
        else if (d[i] == '(' && depth == 0) {
            if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
            base = d.substr(0, i); break;
        }
    }
    for (auto& st : stubs) {
        if (st.second == f) continue;
        const std::string& p = st.first;
        bool m = p == d || p == base || p == f->getName().str();
        if (!m && base.size() > p.size() && base.compare(base.size() - p.size(), p.size(), p) == 0 && base[base.size() - p.size() - 1] == ' ') m = true;
        if (!m && p.find('*') != std::string::npos) m = fnmatch(p.c_str(), d.c_str(), 0) == 0;
        if (m) r = st.second;
    }
    stubCache[f] = r;
    return r;
}
void Engine::callFn(StateP& s, llvm::Function* f, std::vector<Val> args, CallInst* ci, std::vector<StateP>& out, bool& cont)
{
    if (!stubs.empty()) {
        // a stub calling the real function gets the real function
        llvm::Function* st = stubFor(f);
        if (st) {
            bool inStub = false;
            for (auto& fr : s->frames) if (fr->fn == st) inStub = true;
            if (!inStub) {
                if (st->arg_size() != args.size()) throw Abort("stub arity mismatch for " + demangle(f->getName().str()));
                if (!quiet) funcsStub[info(f).dem]++;
                f = st;
            }
        }
    }
    if (intrinsic(s, f, args, ci, out, cont)) return;
    if (f->isDeclaration()) throw Abort("external function " + demangle(f->getName().str()));
    if (s->frames.size() > 300) throw Abort("call depth");
    auto& fi = info(f);
    if (!quiet && fi.inRepo) funcsExec[fi.dem]++;
    auto fr = std::make_shared<Frame>();
    fr->fn = f;
    fr->regs.resize(fi.n);
    for (unsigned i = 0; i < f->arg_size() && i < args.size(); i++) {
        Val v = args[i];
        Type* want = f->getArg(i)->getType();
        if (v.k == VK::Int && want->isIntegerTy() && v.i.w != want->getIntegerBitWidth())
            v = Val::mkInt(v.i.w > want->getIntegerBitWidth() ? bvExtract(v.i, want->getIntegerBitWidth() - 1, 0) : bvZext(v.i, want->getIntegerBitWidth()));
        fr->regs[i] = v;
    }
    fr->callsite = ci;
    fr->bb = &f->getEntryBlock();
    fr->it = fr->bb->begin();
    fr->ctxHash = hmix(s->frames.empty() ? 1 : s->frames.back()->ctxHash, (uint64_t)(uintptr_t)ci);
    s->frames.push_back(fr);
    cont = false;
}
