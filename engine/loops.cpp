// loops: cut at the header with an inferred / supplied inductive invariant
#include "engine.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <unordered_set>

uint64_t birthOf(unsigned declId);

bool Engine::hasPtrCells(State& s, const Content& c, int depth)
{
    if (depth > 6) return true;
    for (auto& kv : c.cells) if (kv.second.val.k == VK::Ptr && kv.second.val.obj) return true;
    for (const Node* n = c.top.get(); n; n = n->next.get()) {
        if (n->k == NK::Store && n->val.k == VK::Ptr && n->val.obj) return true;
        if (n->k == NK::Copy && hasPtrCells(s, *n->src, depth + 1)) return true;
    }
    return false;
}
expr Engine::evalPred(State& s, llvm::Function* f, std::vector<Val> args)
{
    StateP c = clone(s);
    c->pendFrom = c->pendTo = nullptr;
    auto base = c->pc;
    std::vector<LoopCtx*> sctx;
    sctx.swap(ctx);
    auto sw = wlogs; auto st = tlogs;
    wlogs.clear(); tlogs.clear();
    quiet++;
    struct R { Engine& e; std::vector<LoopCtx*>& c; decltype(sw)& w; decltype(st)& t; ~R() { e.ctx.swap(c); e.wlogs = w; e.tlogs = t; e.quiet--; } } r{ *this, sctx, sw, st };
    std::vector<StateP> outs, fin;
    bool cont = true;
    size_t depth = c->frames.size();
    callFn(c, f, args, nullptr, outs, cont);
    std::vector<StateP> init;
    init.push_back(std::move(c));
    explore(std::move(init), depth + 1, &fin);
    expr res = Z->bool_val(false);
    for (auto& x : fin) {
        expr pcx = Z->bool_val(true);
        for (auto* p = x->pc.get(); p && p != base.get(); p = p->next.get()) pcx = band(p->e, pcx);
        Bv rv = x->retval.i;
        expr ok = rv.w == 1 ? toBool(rv) : bvCmp(CMP::NE, rv, Bv(rv.w, 0));
        res = bor(res, band(pcx, ok));
    }
    return res;
}

Bv Engine::evalTerm(State& s, llvm::Function* f)
{
    StateP c = clone(s);
    c->pendFrom = c->pendTo = nullptr;
    auto base = c->pc;
    std::vector<LoopCtx*> sctx;
    sctx.swap(ctx);
    auto sw = wlogs; auto st = tlogs;
    wlogs.clear(); tlogs.clear();
    quiet++;
    struct R { Engine& e; std::vector<LoopCtx*>& c; decltype(sw)& w; decltype(st)& t; ~R() { e.ctx.swap(c); e.wlogs = w; e.tlogs = t; e.quiet--; } } r{ *this, sctx, sw, st };
    std::vector<StateP> outs, fin;
    bool cont = true;
    size_t depth = c->frames.size();
    callFn(c, f, {}, nullptr, outs, cont);
    std::vector<StateP> init;
    init.push_back(std::move(c));
    explore(std::move(init), depth + 1, &fin);
    Bv res(64, 0);
    bool first = true;
    for (auto& x : fin) {
        expr pcx = Z->bool_val(true);
        for (auto* p = x->pc.get(); p && p != base.get(); p = p->next.get()) pcx = band(p->e, pcx);
        res = first ? x->retval.i : bvIte(pcx, x->retval.i, res);
        first = false;
    }
    if (first) throw Abort("measure function has no result");
    return res;
}

namespace {
struct VKey { // variable identity
    PHINode* phi = nullptr;
    int obj = 0;
    uint64_t off = 0;
    bool operator<(const VKey& o) const { return std::tie(phi, obj, off) < std::tie(o.phi, o.obj, o.off); }
    bool operator==(const VKey& o) const { return phi == o.phi && obj == o.obj && off == o.off; }
};
enum class TK { Entry, Obj, Null, Fresh };
struct Target { TK k = TK::Entry; int id = 0; bool operator<(const Target& o) const { return std::tie(k, id) < std::tie(o.k, o.id); } bool operator==(const Target& o) const { return k == o.k && id == o.id; } };
struct Config {
    std::map<VKey, Target> t;
    std::set<int> dead;
    std::map<int, bool> freshPtr;
    bool operator==(const Config& o) const { return t == o.t && dead == o.dead; }
};
struct Cand { std::string name; std::function<expr(Engine&, State&, BasicBlock*, const std::vector<Bv>&)> f; bool alive = true; bool user = false; };
struct LVar { // flattened integer-valued loop variable
    VKey k;
    int part; // 0 int value, 1 pointer offset, 2 pointee size
    unsigned w;
};
}

static unsigned dagSize(const expr& e, unsigned lim)
{
    std::unordered_set<unsigned> seen;
    std::vector<Z3_ast> st{ e };
    while (!st.empty() && seen.size() <= lim) {
        Z3_ast x = st.back();
        st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*Z, x)).second) continue;
        if (Z3_get_ast_kind(*Z, x) != Z3_APP_AST) continue;
        Z3_app a = Z3_to_app(*Z, x);
        for (unsigned i = 0; i < Z3_get_app_num_args(*Z, a); i++) st.push_back(Z3_get_app_arg(*Z, a, i));
    }
    return (unsigned)seen.size();
}

void Engine::processLoop(StateP s, const Loop* L, BasicBlock* from, std::vector<StateP>& out)
{
    BasicBlock* header = L->getHeader();
    const size_t depth = s->frames.size();
    const int wm = (int)s->objs.size();
    const uint64_t birthWm = freshId;
    llvm::Function* fn = header->getParent();
    std::string fdem = info(fn).dem, floc;
    {
        Frame& f = top(*s);
        auto sv = f.it; auto sb = f.bb;
        f.bb = header; f.it = header->getFirstNonPHI()->getIterator();
        floc = where(*s, nullptr);
        f.bb = sb; f.it = sv;
    }
    // locals that only the body uses (scoped inside it): at the header their content is arbitrary
    std::set<int> locals;
    if (loopLocals) {
        for (auto& I : fn->getEntryBlock()) {
            auto* ai = dyn_cast<AllocaInst>(&I);
            if (!ai) continue;
            bool in = true;
            for (auto* u : ai->users()) { auto* ui = dyn_cast<Instruction>(u); if (!ui || !L->contains(ui)) { in = false; break; } }
            if (!in) continue;
            Val v = eval(*s, ai);
            if (v.k == VK::Ptr && v.obj) locals.insert(v.obj);
        }
    }
    auto forgetLocals = [&](State& st) {
        for (int o : locals) {
            if (!st.objs[o]) continue;
            Obj& ob = objW(st, o);
            auto ct = std::make_shared<Content>();
            ct->base = BaseK::Uninit;
            ct->uf = freshUf("local");
            ob.ct = ct;
        }
    };
    forgetLocals(*s);
    // ---- variables
    std::vector<VKey> keys;                       // ordered
    std::map<VKey, unsigned> ksize;               // bits
    std::map<VKey, bool> kptr;                    // pointer typed
    std::set<VKey> havocVal;                      // int value / pointer offset is abstracted
    std::set<int> whole;
    auto addKey = [&](const VKey& k, unsigned bits, bool ptr) {
        if (ksize.count(k)) { if (ptr) kptr[k] = true; return false; }
        keys.push_back(k); ksize[k] = bits; kptr[k] = ptr;
        return true;
    };
    for (auto& p : header->phis()) {
        VKey k; k.phi = &p;
        Type* t = p.getType();
        if (t->isPointerTy()) addKey(k, 64, true);
        else if (t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy()) addKey(k, (unsigned)DL->getTypeSizeInBits(t).getFixedValue(), false);
        else throw Abort("loop phi of unsupported type");
    }
    auto valAt = [&](State& st, const VKey& k, BasicBlock* edge) -> Val {
        if (k.phi) {
            if (edge) {
                Value* v = k.phi->getIncomingValueForBlock(edge);
                if (isa<UndefValue>(v) && k.phi->getType()->isPointerTy()) return Val::mkNull();
                return eval(st, v);
            }
            return st.frames.back()->regs[info(fn).num[k.phi]];
        }
        if (!st.objs[k.obj]) return Val::mkInt(Bv(ksize[k], 0)); // freed
        auto ct = st.objs[k.obj]->ct;
        unsigned bytes = ksize[k] / 8;
        Val v;
        if (findExact(st, *ct, Bv(64, k.off), bytes, v)) {
            if (v.k == VK::Int && v.obj) return Val::mkPtr(v.obj, v.poff);
            return v;
        }
        return Val::mkInt(readInt(st, *ct, Bv(64, k.off), bytes));
    };
    std::map<VKey, Val> entry;
    auto entryVal = [&](const VKey& k) -> const Val& {
        auto it = entry.find(k);
        if (it == entry.end()) it = entry.emplace(k, valAt(*s, k, from)).first;
        return it->second;
    };
    auto targetOf = [&](const Val& v, std::map<int, int>* fresh) -> Target {
        Target t;
        if (v.k == VK::Ptr && v.obj) {
            if (v.obj < wm) { t.k = TK::Obj; t.id = v.obj; return t; }
            t.k = TK::Fresh;
            auto it = fresh->find(v.obj);
            if (it == fresh->end()) it = fresh->emplace(v.obj, (int)fresh->size()).first;
            t.id = it->second;
            return t;
        }
        if (v.i.c && v.i.v == 0) { t.k = TK::Null; return t; }
        t.k = TK::Entry; // raw
        return t;
    };
    std::vector<Config> configs(1);
    auto fillConfig = [&](Config& c) {
        for (auto& k : keys) if (kptr[k] && !c.t.count(k)) c.t[k] = targetOf(entryVal(k), nullptr);
    };
    std::map<VKey, expr> hsym;     // havoc symbol by key (shared by all configurations)
    std::map<int, expr> fsz;       // fresh object sizes
    auto buildState = [&](Config& c) -> StateP {
        StateP h = clone(*s);
        h->pendFrom = nullptr;
        h->pendTo = header;
        std::map<int, int> fid;
        auto freshObj = [&](int k) {
            auto it = fid.find(k);
            if (it != fid.end()) return it->second;
            auto z = fsz.find(k);
            if (z == fsz.end()) z = fsz.emplace(k, freshBv(64, "osz")).first;
            int id = newObj(*h, OK::Heap, Bv::sym(z->second), BaseK::Uninit, "loop-obj");
            h->objs[id]->havocPtr = c.freshPtr.count(k) && c.freshPtr[k];
            addPc(*h, z3::ule(z->second, Z->bv_val((uint64_t)1 << 40, 64)));
            fid[k] = id;
            return id;
        };
        std::vector<std::pair<VKey, Val>> upd;
        for (auto& k : keys) {
            Val v = entryVal(k);
            bool hv = havocVal.count(k);
            auto sym = [&]() {
                auto it = hsym.find(k);
                if (it == hsym.end()) it = hsym.emplace(k, freshBv(ksize[k], k.phi ? "phi" : "cell")).first;
                return Bv::sym(it->second);
            };
            if (kptr[k]) {
                Target t = c.t[k];
                if (t.k == TK::Entry) { if (hv) throw Abort("loop abstracts a raw pointer"); }
                else if (t.k == TK::Null) v = Val::mkNull();
                else {
                    int id = t.k == TK::Obj ? t.id : freshObj(t.id);
                    Bv off = hv ? sym() : (v.k == VK::Ptr && v.obj ? v.i : Bv(64, 0));
                    v = Val::mkPtr(id, off);
                }
            } else if (hv) v = Val::mkInt(sym());
            upd.push_back({ k, v });
        }
        for (int o : whole) {
            if (!h->objs[o]) continue;
            Obj& ob = objW(*h, o);
            if (hasPtrCells(*h, *ob.ct)) ob.havocPtr = true;
            auto ct = std::make_shared<Content>();
            ct->base = BaseK::Sym;
            ct->uf = freshUf("hav");
            ob.ct = ct;
        }
        auto sw = wlogs; wlogs.clear();
        for (auto& u : upd) {
            if (u.first.phi) { Frame& f = top(*h); f.regs[info(fn).num[u.first.phi]] = u.second; }
            else if (h->objs[u.first.obj] && !whole.count(u.first.obj) && (kptr[u.first] || havocVal.count(u.first))) writeCell(*h, u.first.obj, Bv(64, u.first.off), ksize[u.first] / 8, u.second);
        }
        wlogs = sw;
        for (int d : c.dead) h->objs[d] = nullptr;
        Frame& f = top(*h);
        f.prev = from;
        h->model = nullptr;
        return h;
    };
    // flattened variables
    std::vector<LVar> vars;
    auto rebuildVars = [&]() {
        vars.clear();
        for (auto& k : keys) {
            if (!k.phi && whole.count(k.obj)) continue;
            if (kptr[k]) {
                bool fresh = false;
                for (auto& c : configs) { auto it = c.t.find(k); if (it != c.t.end() && (it->second.k == TK::Fresh || !(it->second == configs[0].t[k]))) fresh = true; }
                if (havocVal.count(k)) vars.push_back({ k, 1, 64 });
                if (fresh) vars.push_back({ k, 2, 64 });
            } else if (havocVal.count(k) && (ksize[k] <= 64)) {
                if (k.phi && !k.phi->getType()->isIntegerTy()) continue;
                vars.push_back({ k, 0, ksize[k] });
            }
        }
    };
    auto varVals = [&](State& st, BasicBlock* edge) {
        std::vector<Bv> r;
        for (auto& v : vars) {
            Val x = valAt(st, v.k, edge);
            if (v.part == 0) r.push_back(x.k == VK::Int ? x.i : toInt(st, x));
            else if (v.part == 1) r.push_back(x.k == VK::Ptr ? x.i : Bv(64, 0));
            else r.push_back(x.k == VK::Ptr && x.obj && st.objs[x.obj] ? st.objs[x.obj]->size : Bv(64, 0));
        }
        return r;
    };
    std::vector<expr> terms; // loop invariant terms
    std::set<unsigned> termIds;
    std::vector<Cand> cands;
    std::set<std::string> known;
    std::vector<Bv> entryVals;
    auto addCand = [&](const std::string& n, std::function<expr(const std::vector<Bv>&)> f) {
        // with loop-locals: relations to the values on entry only (the harness supplies the inequalities)
        if (loopLocals && (n.find('<') != std::string::npos || n.find('%') != std::string::npos || n.find(">=s") != std::string::npos || n.find(">=0s") != std::string::npos || n.find(">=t") != std::string::npos)) return;
        if (!known.insert(n).second) return;
        Cand c;
        c.name = n;
        c.f = [f](Engine&, State&, BasicBlock*, const std::vector<Bv>& v) { return f(v); };
        cands.push_back(c);
    };
    auto vname = [&](const LVar& v) {
        std::string n;
        if (v.k.phi) n = "phi" + std::to_string(info(fn).num[v.k.phi]);
        else n = "m" + std::to_string(v.k.obj) + "+" + std::to_string(v.k.off);
        return n + (v.part == 1 ? ".off" : v.part == 2 ? ".size" : "");
    };
    auto indexOf = [&](const std::string& n) { for (size_t i = 0; i < vars.size(); i++) if (vname(vars[i]) == n) return (int)i; return -1; };
    auto makeCands = [&]() {
        // candidates refer to variables by name, so that re-numbering is harmless
        auto get = [&](const std::string& n) {
            return [&, n](const std::vector<Bv>& v) -> Bv { int i = indexOf(n); if (i < 0) throw Abort("loop variable vanished"); return v[i]; };
        };
        for (size_t i = 0; i < vars.size(); i++) {
            std::string n = vname(vars[i]);
            auto g = get(n);
            Bv x0 = entryVals[i];
            unsigned w = vars[i].w;
            if (w == 1) { addCand(n + "==entry", [g, x0](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, g(v), x0); }); continue; }
            addCand(n + ">=entry", [g, x0](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, x0, g(v)); });
            addCand(n + "<=entry", [g, x0](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, g(v), x0); });
            addCand(n + "==entry", [g, x0](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, g(v), x0); });
            addCand(n + ">=0s", [g, w](const std::vector<Bv>& v) { return bvCmp(CMP::SLE, Bv(w, 0), g(v)); });
            addCand(n + ">=s entry", [g, x0](const std::vector<Bv>& v) { return bvCmp(CMP::SLE, x0, g(v)); });
            for (unsigned m : { 2, 4, 8, 16 })
                if (w >= 8) addCand(n + "%" + std::to_string(m), [g, x0, m](const std::vector<Bv>& v) {
                    return bvCmp(CMP::EQ, bvExtract(bvSub(g(v), x0), __builtin_ctz(m) - 1, 0), Bv(__builtin_ctz(m), 0));
                });
            for (size_t t = 0; t < terms.size(); t++) {
                expr te = terms[t];
                unsigned tw = te.get_sort().bv_size();
                Bv tb = Bv::sym(te);
                std::string tn = "t" + std::to_string(Z3_get_ast_id(*Z, te));
                if (tw == w) {
                    addCand(n + "<=" + tn, [g, tb](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, g(v), tb); });
                    addCand(n + "<" + tn, [g, tb](const std::vector<Bv>& v) { return bvCmp(CMP::ULT, g(v), tb); });
                    addCand(n + ">=" + tn, [g, tb](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, tb, g(v)); });
                    addCand(n + "<=s" + tn, [g, tb](const std::vector<Bv>& v) { return bvCmp(CMP::SLE, g(v), tb); });
                    addCand(n + "==" + tn, [g, tb](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, g(v), tb); });
                } else if (w < tw) {
                    addCand(n + "<=z" + tn, [g, tb, tw](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, bvZext(g(v), tw), tb); });
                    addCand(n + "<z" + tn, [g, tb, tw](const std::vector<Bv>& v) { return bvCmp(CMP::ULT, bvZext(g(v), tw), tb); });
                } else {
                    addCand(n + "<=zt" + tn, [g, tb, w](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, g(v), bvZext(tb, w)); });
                }
            }
            if (vars.size() <= 24)
                for (size_t j = 0; j < vars.size(); j++) {
                    if (i == j || vars[j].w != w) continue;
                    std::string m = vname(vars[j]);
                    auto gj = get(m);
                    Bv y0 = entryVals[j];
                    addCand(n + "<=" + m, [g, gj](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, g(v), gj(v)); });
                    addCand(n + "<" + m, [g, gj](const std::vector<Bv>& v) { return bvCmp(CMP::ULT, g(v), gj(v)); });
                    if (i < j) {
                        addCand(n + "==" + m, [g, gj](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, g(v), gj(v)); });
                        addCand(n + "-" + m, [g, gj, x0, y0](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvSub(g(v), x0), bvSub(gj(v), y0)); });
                        addCand(n + "+" + m, [g, gj, x0, y0](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvAdd(g(v), gj(v)), bvAdd(x0, y0)); });
                        if (!loopLocals) for (unsigned k : { 2u, 3u, 4u, 8u }) {
                            addCand(n + "-" + std::to_string(k) + m, [g, gj, x0, y0, k, w](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvSub(g(v), x0), bvBin(BO::Mul, bvSub(gj(v), y0), Bv(w, k))); });
                            addCand(std::to_string(k) + n + "-" + m, [g, gj, x0, y0, k, w](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvBin(BO::Mul, bvSub(g(v), x0), Bv(w, k)), bvSub(gj(v), y0)); });
                        }
                    }
                }
            if (vars.size() <= 16 && !loopLocals)
                for (size_t j = 0; j < vars.size(); j++) { // widths differ
                    if (vars[j].w <= w || w < 8) continue;
                    std::string m = vname(vars[j]);
                    auto gj = get(m);
                    Bv y0 = entryVals[j];
                    unsigned tw = vars[j].w;
                    addCand("z" + n + "-" + m, [g, gj, x0, y0, tw](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvZext(bvSub(g(v), x0), tw), bvSub(gj(v), y0)); });
                    addCand("z" + n + "+" + m, [g, gj, x0, y0, tw](const std::vector<Bv>& v) { return bvCmp(CMP::EQ, bvAdd(bvZext(g(v), tw), gj(v)), bvAdd(bvZext(x0, tw), y0)); });
                    addCand("z" + n + "<=" + m, [g, gj, tw](const std::vector<Bv>& v) { return bvCmp(CMP::ULE, bvZext(g(v), tw), gj(v)); });
                }
            for (auto* f : inv[1]) {
                std::string nm = "pred " + info(f).dem + "(" + n + ")";
                if (!known.insert(nm).second) continue;
                Cand c; c.name = nm; c.user = true;
                c.f = [f, g](Engine& e, State& st, BasicBlock*, const std::vector<Bv>& v) { Bv x = g(v); return e.evalPred(st, f, { Val::mkInt(x.w < 64 ? bvZext(x, 64) : x) }); };
                cands.push_back(c);
            }
            if (!inv[2].empty() && vars.size() <= 6)
                for (size_t j = 0; j < vars.size(); j++) {
                    if (i == j) continue;
                    std::string m = vname(vars[j]);
                    auto gj = get(m);
                    for (auto* f : inv[2]) {
                        std::string nm = "pred " + info(f).dem + "(" + n + "," + m + ")";
                        if (!known.insert(nm).second) continue;
                        Cand c; c.name = nm; c.user = true;
                        c.f = [f, g, gj](Engine& e, State& st, BasicBlock*, const std::vector<Bv>& v) {
                            Bv x = g(v), y = gj(v);
                            return e.evalPred(st, f, { Val::mkInt(x.w < 64 ? bvZext(x, 64) : x), Val::mkInt(y.w < 64 ? bvZext(y, 64) : y) });
                        };
                        cands.push_back(c);
                    }
                }
        }
        for (auto* f : inv[0]) {
            std::string nm = "pred " + info(f).dem;
            if (!known.insert(nm).second) continue;
            Cand c; c.name = nm; c.user = true;
            c.f = [f](Engine& e, State& st, BasicBlock*, const std::vector<Bv>&) { return e.evalPred(st, f, {}); };
            cands.push_back(c);
        }
        for (int o = 1; o < wm; o++) {
            auto& ob = s->objs[o];
            if (!ob || !ob->ty || !ob->ty->isStructTy() || !cast<StructType>(ob->ty)->hasName()) continue;
            std::string tn = cast<StructType>(ob->ty)->getName().str();
            for (auto& ci : classInv) {
                if (tn.find(ci.first) == std::string::npos) continue;
                bool touched = whole.count(o);
                for (auto& k : keys) if (!k.phi && k.obj == o) touched = true;
                if (!touched) continue;
                std::string nm = "class " + ci.first + " m" + std::to_string(o);
                if (!known.insert(nm).second) continue;
                Cand c; c.name = nm; c.user = true;
                llvm::Function* f = ci.second;
                c.f = [f, o](Engine& e, State& st, BasicBlock*, const std::vector<Bv>&) {
                    if (!st.objs[o]) return Z->bool_val(true);
                    return e.evalPred(st, f, { Val::mkPtr(o, Bv(64, 0)) });
                };
                cands.push_back(c);
            }
        }
    };
    // evaluation in a header/back state: extra pc conditions produced while evaluating are part of the state
    struct BackInfo { StateP st; int cfg; std::vector<expr> hdr; };
    std::vector<StateP> exitsLast;
    std::vector<std::pair<StateP, int>> backsLast;
    uint64_t candTotal = 0;
    size_t lastTerms = 0;
    std::vector<std::vector<Bv>> hdrM;
    auto runRound = [&](bool q, std::vector<std::pair<StateP, int>>& backs, std::vector<StateP>& exits, std::vector<WriteRec>& wl, std::vector<expr>& tl, std::vector<std::vector<expr>>& hdrC) {
        hdrC.clear();
        hdrM.clear();
        if (q) quiet++;
        struct R { Engine& e; bool q; ~R() { if (q) e.quiet--; } } r{ *this, q };
        for (size_t ci = 0; ci < configs.size(); ci++) {
            StateP h = buildState(configs[ci]);
            auto vv = varVals(*h, nullptr);
            std::vector<expr> hc;
            for (auto& c : cands) {
                if (!c.alive) { hc.push_back(Z->bool_val(true)); continue; }
                hc.push_back(c.f(*this, *h, nullptr, vv));
            }
            for (auto& e : hc) addPc(*h, e);
            hdrC.push_back(hc);
            hdrM.push_back({});
            if (!q && checkTermination) for (auto* mf : measures) hdrM.back().push_back(evalTerm(*h, mf));
            LoopCtx lc{ L, depth, {}, {} };
            ctx.push_back(&lc);
            wlogs.push_back(&wl);
            tlogs.push_back(&tl);
            struct P { Engine& e; ~P() { e.ctx.pop_back(); e.wlogs.pop_back(); e.tlogs.pop_back(); } } p{ *this };
            std::vector<StateP> init, fin;
            init.push_back(std::move(h));
            explore(std::move(init), curBase, &fin);
            if (!fin.empty()) throw Abort("function returned from inside a loop cut");
            for (auto& b : lc.backs) backs.push_back({ std::move(b), (int)ci });
            for (auto& e : lc.exits) exits.push_back(std::move(e));
        }
    };
    auto newTerms = [&](std::vector<expr>& tl) {
        bool any = false;
        for (auto& t : tl) {
            unsigned id = Z3_get_ast_id(*Z, t);
            if (!termIds.insert(id).second) continue;
            keepAlive.push_back(t);
            if (terms.size() >= 40) continue;
            if (dagSize(t, 80) > 80) continue;
            bool okk = true;
            auto fv = freeVars(t);
            for (unsigned x : *fv) if (birthOf(x) > birthWm) { okk = false; break; }
            if (!okk) continue;
            terms.push_back(t);
            any = true;
        }
        return any;
    };
    // candidates that an earlier visit of this loop had to drop are not tried again (fewer inferred facts, never more;
    // a run that fails with some left out is repeated with all of them)
    auto& hist = dropHist[fdem + "|" + floc];
    auto inHist = [&](Cand& c) { if (histOff || c.user || !hist.count(c.name)) return false; histUsed = true; return true; };
    auto holdsAtEntry = [&](Cand& c) {
        StateP e = clone(*s);
        expr x = c.f(*this, *e, from, entryVals);
        return must(*e, x);
    };
    for (auto& c : configs) fillConfig(c);
    int round = 0;
    while (true) {
        if (++round > 40) throw Abort("loop invariant inference did not converge: " + fdem + " " + floc);
        if (verbose) errs() << "    [loop " << fdem << " " << floc << "] round " << round << " vars " << vars.size() << " cfgs " << configs.size() << " cands " << std::count_if(cands.begin(), cands.end(), [](const Cand& c) { return c.alive; }) << "\n";
        std::vector<std::pair<StateP, int>> backs;
        std::vector<StateP> exits;
        std::vector<WriteRec> wl;
        std::vector<expr> tl;
        std::vector<std::vector<expr>> hdrC;
        runRound(true, backs, exits, wl, tl, hdrC);
        bool changed = false;
        if (!locals.empty()) for (auto& b : backs) forgetLocals(*b.first);
        // --- written memory
        for (auto& w : wl) {
            if (w.obj >= wm || !s->objs[w.obj] || w.freed || locals.count(w.obj)) continue;
            if (whole.count(w.obj)) continue;
            if (!w.conc || w.size > 8 || (w.size & (w.size - 1))) {
                if (w.conc && w.size <= 64 && w.size) {
                    uint64_t o = w.off; unsigned left = w.size;
                    while (left) { unsigned k = left >= 8 ? 8 : left >= 4 ? 4 : left >= 2 ? 2 : 1; VKey vk; vk.obj = w.obj; vk.off = o; if (addKey(vk, k * 8, false)) changed = true; o += k; left -= k; }
                    continue;
                }
                whole.insert(w.obj);
                changed = true;
                continue;
            }
            VKey vk; vk.obj = w.obj; vk.off = w.off;
            // overlap with an existing key of other shape
            bool skip = false;
            for (auto& k : keys) {
                if (k.phi || k.obj != w.obj) continue;
                unsigned ks = ksize[k] / 8;
                if (k.off == w.off && ks == w.size) { if (w.isPtr && !kptr[k]) { kptr[k] = true; changed = true; for (auto& c : configs) fillConfig(c); } skip = true; break; }
                if (k.off <= w.off && k.off + ks >= w.off + w.size) { skip = true; break; } // contained
            }
            if (skip) continue;
            std::vector<VKey> nk;
            for (auto& k : keys) {
                if (!k.phi && k.obj == w.obj && k.off < w.off + w.size && k.off + ksize[k] / 8 > w.off) {
                    if (!(k.off >= w.off && k.off + ksize[k] / 8 <= w.off + w.size)) throw Abort("overlapping loop writes");
                    ksize.erase(k); kptr.erase(k); havocVal.erase(k); hsym.erase(k); entry.erase(k);
                    for (auto& c : configs) c.t.erase(k);
                    continue; // replaced by the wider one
                }
                nk.push_back(k);
            }
            keys = nk;
            addKey(vk, w.size * 8, w.isPtr);
            changed = true;
        }
        for (auto& k : keys) if (!kptr[k] && !k.phi) {
            const Val& v = entryVal(k);
            if (v.k == VK::Ptr && ksize[k] == 64) kptr[k] = true;
        }
        for (auto& c : configs) fillConfig(c);
        // --- back states: shapes and changed values
        for (auto& b : backs) {
            Config nc;
            std::map<int, int> fr;
            for (auto& k : keys) {
                if (!k.phi && whole.count(k.obj)) continue;
                if (!k.phi && !b.first->objs[k.obj]) { if (kptr[k]) nc.t[k] = configs[b.second].t[k]; continue; }
                Val bv = valAt(*b.first, k, b.first->pendFrom);
                if (bv.k == VK::Ptr && bv.obj && !kptr[k]) { kptr[k] = true; changed = true; for (auto& c : configs) fillConfig(c); }
                Val hv;
                if (kptr[k]) {
                    Target t = targetOf(bv, &fr);
                    if (t.k == TK::Entry) {
                        const Val& e = entryVal(k);
                        Val x = e;
                        if (x.k == VK::Ptr && x.obj) throw Abort("loop turns pointer into raw value");
                        if (!z3::eq(x.i.ex(), bv.i.ex())) {
                            // unset/raw value changed: treat as opaque
                            throw Abort("loop changes raw pointer");
                        }
                    }
                    nc.t[k] = t;
                    if (t.k == TK::Obj || t.k == TK::Fresh) {
                        if (!havocVal.count(k)) {
                            const Val& e = entryVal(k);
                            Bv e0 = e.k == VK::Ptr && e.obj ? e.i : Bv(64, 0);
                            if (!must(*b.first, bvCmp(CMP::EQ, e0, bv.i))) { havocVal.insert(k); changed = true; }
                        }
                    }
                } else if (!havocVal.count(k)) {
                    const Val& e = entryVal(k);
                    Bv x = e.k == VK::Ptr ? toInt(*b.first, e) : e.i, y = bv.k == VK::Ptr ? toInt(*b.first, bv) : bv.i;
                    if (x.w != y.w || !must(*b.first, bvCmp(CMP::EQ, x, y))) { havocVal.insert(k); changed = true; }
                }
            }
            for (int o = 1; o < wm; o++) if (s->objs[o] && !b.first->objs[o]) nc.dead.insert(o);
            for (auto& f : fr) {
                Obj* o = b.first->objs[f.first].get();
                if (!o) continue;
                if (o->kind != OK::Heap) throw Abort("loop-carried pointer to a local of the loop body");
                nc.freshPtr[f.second] = o->havocPtr || hasPtrCells(*b.first, *o->ct);
            }
            bool have = false;
            for (auto& c : configs) if (c == nc) {
                have = true;
                for (auto& f : nc.freshPtr) if (f.second && !c.freshPtr[f.first]) { c.freshPtr[f.first] = true; changed = true; }
            }
            if (!have) { configs.push_back(nc); changed = true; if (configs.size() > 10) throw Abort("too many heap shapes in loop " + fdem + " " + floc); }
        }
        bool nt = newTerms(tl);
        if (changed || nt || round == 1) {
            rebuildVars();
            entryVals = varVals(*s, from);
        }
        if (changed) {
            size_t before = cands.size();
            makeCands();
            for (size_t i = before; i < cands.size(); i++) cands[i].alive = !inHist(cands[i]) && holdsAtEntry(cands[i]);
            // candidates dropped in an earlier, less abstract round stay dropped: still sound
            continue;
        }
        size_t before = cands.size();
        if (nt || round == 1) makeCands();
        for (size_t i = before; i < cands.size(); i++) cands[i].alive = !inHist(cands[i]) && holdsAtEntry(cands[i]);
        bool added = false;
        for (size_t i = before; i < cands.size(); i++) if (cands[i].alive) added = true;
        // --- Houdini on the collected back states
        struct BI { StateP st; std::vector<expr> h, b; };
        std::vector<BI> bis;
        for (auto& b : backs) {
            BI bi;
            // header instances of candidates that were not assumed during the exploration
            bi.h = hdrC[b.second];
            StateP hs;
            std::vector<Bv> hv;
            if (bi.h.size() < cands.size()) { hs = buildState(configs[b.second]); hv = varVals(*hs, nullptr); }
            // note: buildState reuses the same symbols for values; contents of abstracted objects differ, so user predicates are not re-instantiated
            for (size_t i = bi.h.size(); i < cands.size(); i++) bi.h.push_back(cands[i].alive && !cands[i].user ? cands[i].f(*this, *hs, nullptr, hv) : Z->bool_val(true));
            auto vv = varVals(*b.first, b.first->pendFrom);
            for (auto& c : cands) bi.b.push_back(c.alive ? c.f(*this, *b.first, b.first->pendFrom, vv) : Z->bool_val(true));
            bi.st = std::move(b.first);
            bis.push_back(std::move(bi));
        }
        // inferred candidates first; the supplied predicates (the expensive ones) once those are stable
        bool dropped = false, any = true;
        int phase = 0;
        while (any || phase == 0) {
            if (!any) { if (dropped) break; phase = 1; }
            any = false;
            for (auto& bi : bis) {
                std::vector<expr> pcs;
                collectPc(*bi.st, pcs);
                for (size_t i = 0; i < cands.size(); i++) if (cands[i].alive) pcs.push_back(bi.h[i]);
                // quick groups
                std::vector<size_t> todo;
                for (size_t i = 0; i < cands.size(); i++) if (cands[i].alive && !bi.b[i].is_true() && (phase == 1 || !cands[i].user)) todo.push_back(i);
                double t0 = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
                Z3_solver zs = Z3_mk_simple_solver(*Z);
                z3::solver so(*Z, zs);
                z3::params pr(*Z);
                pr.set("timeout", (unsigned)4000);
                so.set(pr);
                for (auto& e : pcs) so.add(e);
                bool unk = phase == 1;
                while (!unk) {
                    expr conj = Z->bool_val(true);
                    int na = 0;
                    for (size_t i : todo) if (cands[i].alive) { conj = band(conj, bi.b[i]); na++; }
                    if (!na) break;
                    so.push();
                    so.add(bnot(conj));
                    solverCalls++;
                    auto r = so.check();
                    if (r == z3::unsat) { so.pop(); break; }
                    if (r == z3::unknown) { so.pop(); unk = true; break; }
                    z3::model m = so.get_model();
                    bool d = false;
                    for (size_t i : todo) if (cands[i].alive && m.eval(bi.b[i], true).is_false()) { cands[i].alive = false; if (!cands[i].user) hist.insert(cands[i].name); d = any = dropped = true; }
                    so.pop();
                    if (!d) { unk = true; break; }
                }
                solverMs += 1000 * (std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() - t0);
                if (unk) {
                    StateP c = clone(*bi.st);
                    for (size_t i = 0; i < cands.size(); i++) if (cands[i].alive) addPc(*c, bi.h[i]);
                    unsigned sv = queryTimeoutMs;
                    for (size_t i : todo) {
                        if (!cands[i].alive) continue;
                        queryTimeoutMs = cands[i].user ? sv : std::min(sv, 3000u);
                        bool ok = must(*c, bi.b[i]);
                        queryTimeoutMs = sv;
                        if (!ok) { cands[i].alive = false; if (!cands[i].user) hist.insert(cands[i].name); any = dropped = true; }
                    }
                }
            }
        }
        candTotal = cands.size();
        added = false;
        for (size_t i = before; i < cands.size(); i++) if (cands[i].alive) added = true;
        if (dropped || added) { lastTerms = terms.size(); continue; }
        for (auto& b : bis) backsLast.push_back({ std::move(b.st), 0 });
        exitsLast = std::move(exits);
        break;
    }
    (void)lastTerms;
    LoopRec& lr = loops[fdem + "|" + floc];
    lr.fn = fdem;
    lr.loc = floc;
    uint64_t kept = 0;
    for (auto& c : cands) if (c.alive) kept++;
    if (verbose) {
        errs() << "    [loop " << fdem << " " << floc << "] invariant:";
        for (auto& c : cands) if (c.alive) errs() << " {" << c.name << "}";
        errs() << "\n";
        for (auto& c : cands) if (!c.alive && c.user) errs() << "      dropped user candidate " << c.name << "\n";
    }
    // propagate modifications to enclosing cuts
    if (quiet == 0) {
        lr.entries++;
        lr.cands = std::max<uint64_t>(lr.cands, candTotal);
        lr.kept = std::max(lr.kept, kept);
        std::vector<std::pair<StateP, int>> backs;
        std::vector<StateP> exits;
        std::vector<WriteRec> wl;
        std::vector<expr> tl;
        std::vector<std::vector<expr>> hdrC;
        runRound(false, backs, exits, wl, tl, hdrC);
        lr.backVcs += backs.size() * kept;
        exitsLast = std::move(exits);
        for (auto& c : cands) if (c.alive && c.user) invNames[c.name]++;
        // termination measure
        if (checkTermination && !backs.empty()) {
            std::vector<std::vector<Bv>> hv;
            for (size_t ci = 0; ci < configs.size(); ci++) { StateP h = buildState(configs[ci]); hv.push_back(varVals(*h, nullptr)); }
            std::vector<std::vector<Bv>> bv;
            for (auto& b : backs) bv.push_back(varVals(*b.first, b.first->pendFrom));
            std::string measure;
            size_t n = vars.size();
            auto dec = [&](size_t i, int dir, const std::vector<size_t>& which) {
                for (size_t b : which) {
                    const Bv &x = hv[backs[b].second][i], &y = bv[b][i];
                    if (!must(*backs[b].first, dir > 0 ? bvCmp(CMP::ULT, x, y) : bvCmp(CMP::ULT, y, x))) return false;
                }
                return true;
            };
            std::vector<size_t> allb;
            for (size_t b = 0; b < backs.size(); b++) allb.push_back(b);
            for (size_t i = 0; i < n && measure.empty(); i++)
                for (int d : { 1, -1 })
                    if (vars[i].w > 1 && dec(i, d, allb)) { measure = (d > 0 ? "increasing " : "decreasing ") + vname(vars[i]); break; }
            for (size_t i = 0; i < n && measure.empty() && n <= 12; i++)
                for (int d : { 1, -1 }) {
                    // lexicographic: i never moves backwards; where it stays equal, j moves
                    std::vector<size_t> eqb;
                    bool ok = true;
                    for (size_t b = 0; b < backs.size() && ok; b++) {
                        const Bv &x = hv[backs[b].second][i], &y = bv[b][i];
                        if (must(*backs[b].first, d > 0 ? bvCmp(CMP::ULT, x, y) : bvCmp(CMP::ULT, y, x))) continue;
                        if (must(*backs[b].first, bvCmp(CMP::EQ, x, y))) eqb.push_back(b);
                        else ok = false;
                    }
                    if (!ok || eqb.size() == backs.size()) continue;
                    for (size_t j = 0; j < n && measure.empty(); j++)
                        for (int d2 : { 1, -1 })
                            if (j != i && dec(j, d2, eqb)) { measure = std::string("lexicographic ") + vname(vars[i]) + "," + vname(vars[j]); break; }
                    if (!measure.empty()) break;
                }
            for (size_t m = 0; m < measures.size() && measure.empty(); m++) {
                bool ok = true;
                for (size_t b = 0; b < backs.size() && ok; b++) {
                    Bv y = evalTerm(*backs[b].first, measures[m]);
                    if (!must(*backs[b].first, bvCmp(CMP::ULT, y, hdrM[backs[b].second][m]))) ok = false;
                }
                if (ok) measure = "supplied " + info(measures[m]).dem;
            }
            // distance to a loop-invariant value, or to another variable
            for (size_t i = 0; i < n && measure.empty(); i++) {
                if (vars[i].w < 8) continue;
                for (auto& te : terms) {
                    if (te.get_sort().bv_size() != vars[i].w) continue;
                    Bv tb = Bv::sym(te);
                    bool ok = true;
                    for (size_t b = 0; b < backs.size() && ok; b++) ok = must(*backs[b].first, bvCmp(CMP::ULT, bvSub(tb, bv[b][i]), bvSub(tb, hv[backs[b].second][i])));
                    if (ok) { measure = "decreasing distance to " + te.to_string().substr(0, 60) + " of " + vname(vars[i]); break; }
                }
                for (size_t j = 0; j < n && measure.empty(); j++) {
                    if (i == j || vars[j].w != vars[i].w) continue;
                    bool ok = true;
                    for (size_t b = 0; b < backs.size() && ok; b++) { size_t c = backs[b].second; ok = must(*backs[b].first, bvCmp(CMP::ULT, bvSub(bv[b][j], bv[b][i]), bvSub(hv[c][j], hv[c][i]))); }
                    if (ok) measure = "decreasing " + vname(vars[j]) + "-" + vname(vars[i]);
                }
            }
            Obligation& to = obls["termination|" + fdem + "|" + floc];
            if (to.kind.empty()) { to.kind = "termination"; to.fn = fdem; to.loc = floc; to.label = "the loop has a decreasing measure"; }
            to.vcs += backs.size();
            if (measure.empty()) { lr.termFail++; if (to.status == 0) to.status = 2; }
            else to.smt += backs.size();
            if (!measure.empty()) lr.measure = measure;
        }
        for (auto* w : wlogs) w->insert(w->end(), wl.begin(), wl.end());
    }
    // writes performed by the loop are visible to enclosing cuts
    if (!wlogs.empty()) {
        for (auto& k : keys) if (!k.phi) logWrite(*s, k.obj, Bv(64, k.off), ksize[k] / 8, false, kptr[k]);
        for (int o : whole) logWrite(*s, o, Bv::sym(Z->bv_const("any", 64)), 1);
    }
    for (auto& e : exitsLast) out.push_back(std::move(e));
}
