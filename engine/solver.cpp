#include "engine.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <unordered_set>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
std::shared_ptr<std::set<unsigned>> Engine::freeVars(const expr& e)
{
    unsigned id = Z3_get_ast_id(*Z, e);
    auto it = fvCache.find(id);
    if (it != fvCache.end()) return it->second;
    auto r = std::make_shared<std::set<unsigned>>();
    std::unordered_set<unsigned> seen;
    std::vector<Z3_ast> st{ e };
    while (!st.empty()) {
        Z3_ast x = st.back();
        st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*Z, x)).second) continue;
        if (Z3_get_ast_kind(*Z, x) != Z3_APP_AST) continue;
        Z3_app a = Z3_to_app(*Z, x);
        Z3_func_decl d = Z3_get_app_decl(*Z, a);
        if (Z3_get_decl_kind(*Z, d) == Z3_OP_UNINTERPRETED) r->insert(Z3_get_ast_id(*Z, Z3_func_decl_to_ast(*Z, d)));
        unsigned n = Z3_get_app_num_args(*Z, a);
        for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(*Z, a, i));
    }
    keepAlive.push_back(e);
    fvCache[id] = r;
    return r;
}
void Engine::collectPc(const State& s, std::vector<expr>& out)
{
    for (auto* p = s.pc.get(); p; p = p->next.get()) out.push_back(p->e);
}
// ---- scan: does the query contain uninterpreted functions at symbolic indices, floating point?
struct Shape { bool uf = false, fp = false, hard = false; };
static Shape shapeOf(const std::vector<expr>& cs)
{
    Shape r;
    std::unordered_set<unsigned> seen;
    std::vector<Z3_ast> st;
    for (auto& e : cs) st.push_back(e);
    while (!st.empty()) {
        Z3_ast x = st.back();
        st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*Z, x)).second) continue;
        if (Z3_get_ast_kind(*Z, x) != Z3_APP_AST) continue;
        Z3_app a = Z3_to_app(*Z, x);
        Z3_func_decl d = Z3_get_app_decl(*Z, a);
        auto k = Z3_get_decl_kind(*Z, d);
        unsigned n = Z3_get_app_num_args(*Z, a);
        if (k == Z3_OP_UNINTERPRETED && n) r.uf = true;
        if (k >= Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN && k <= Z3_OP_FPA_TO_IEEE_BV) r.fp = true;
        for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(*Z, a, i));
    }
    return r;
}
int Engine::solve(const std::vector<expr>& cs, bool wantModel, std::unique_ptr<z3::model>* out, unsigned tmo)
{
    solverCalls++;
    double t0 = nowS();
    static Z3_tactic tBv = nullptr, tUf = nullptr;
    Shape sh = shapeOf(cs);
    int res = -1;
    auto attempt = [&](int mode, unsigned ms) {
        Z3_solver zs;
        if (mode == 0) zs = Z3_mk_simple_solver(*Z);
        else if (mode == 1) zs = Z3_mk_solver_for_logic(*Z, Z3_mk_string_symbol(*Z, sh.uf ? "QF_UFBV" : "QF_BV"));
        else zs = Z3_mk_solver(*Z);
        z3::solver so(*Z, zs);
        z3::params p(*Z);
        p.set("timeout", ms);
        so.set(p);
        for (auto& c : cs) so.add(c);
        z3::check_result r = so.check();
        if (r == z3::sat) {
            res = 1;
            auto m = std::make_unique<z3::model>(so.get_model());
            models.push_front(*m);
            if (models.size() > 12) models.pop_back();
            if (out) *out = std::move(m);
        } else if (r == z3::unsat) res = 0;
    };
    try {
        if (sh.fp) { attempt(2, tmo); }
        else {
            attempt(0, std::min(tmo, 1500u));
            if (res < 0) attempt(1, tmo);
            if (res < 0 && tmo > 5000) attempt(2, tmo / 2);
        }
    } catch (z3::exception& e) {
        if (verbose) errs() << "z3 exception " << e.msg() << "\n";
        res = -1;
    }
    double dt = (nowS() - t0) * 1000;
    solverMs += dt;
    if (dt > 3000 && verbose) errs() << "  slow query " << dt << " ms res " << res << " n=" << cs.size() << (sh.uf ? " uf" : "") << (sh.fp ? " fp" : "") << "\n";
    if (res < 0) unknowns++;
    if (res < 0 || dt > (getenv("VCX_DUMPMS") ? atof(getenv("VCX_DUMPMS")) : 3000)) {
        if (getenv("VCX_DUMP")) {
            static int nd = 0;
            z3::solver so(*Z);
            for (auto& c : cs) so.add(c);
            std::string f = std::string(getenv("VCX_DUMP")) + "/q" + std::to_string(nd++) + ".smt2";
            FILE* o = fopen(f.c_str(), "w");
            if (o) { fputs(so.to_smt2().c_str(), o); fclose(o); }
        }
    }
    (void)wantModel; (void)tBv; (void)tUf;
    return res;
}
// one incremental solver follows the path condition (depth-first exploration shares long prefixes)
int Engine::incCheck(State& s, const expr& cond)
{
    static bool off = getenv("VCX_NOINC") != nullptr;
    if (!s.pc || off) return -1;
    if (incFails >= 4) { if (++incFails < 40) return -1; incFails = 3; }
    double t0 = nowS();
    int r = -1;
    try {
        if (!inc || incCalls % 4000 == 3999) {
            inc = std::make_unique<z3::solver>(*Z, Z3_mk_simple_solver(*Z));
            incStack.clear();
        }
        incCalls++;
        std::vector<std::shared_ptr<const PcNode>> ch;
        for (auto p = s.pc; p; p = p->next) ch.push_back(p);
        std::reverse(ch.begin(), ch.end());
        size_t k = 0;
        while (k < ch.size() && k < incStack.size() && ch[k] == incStack[k]) k++;
        if (incStack.size() > k) { inc->pop((unsigned)(incStack.size() - k)); incStack.resize(k); }
        for (; k < ch.size(); k++) { inc->push(); inc->add(ch[k]->e); incStack.push_back(ch[k]); }
        z3::params p(*Z);
        p.set("timeout", 250u);
        inc->set(p);
        inc->push();
        inc->add(cond);
        z3::check_result cr = inc->check();
        if (cr == z3::sat) {
            r = 1;
            models.push_front(inc->get_model());
            if (models.size() > 12) models.pop_back();
            if (!s.model) s.model = std::make_shared<z3::model>(models.front());
        } else if (cr == z3::unsat) r = 0;
        inc->pop();
    } catch (z3::exception& e) { inc.reset(); incStack.clear(); r = -1; }
    solverMs += (nowS() - t0) * 1000;
    if (r >= 0) { incHits++; incFails = 0; } else incFails++;
    return r;
}
struct SatTimer {
    Engine& E; State& s; double t0; bool on;
    SatTimer(Engine& e, State& st) : E(e), s(st), t0(nowS()), on(getenv("VCX_PROF") != nullptr) {}
    ~SatTimer()
    {
        if (!on) return;
        std::string fn, loc;
        try { loc = E.where(s, nullptr, &fn); } catch (...) {}
        auto& p = E.prof[fn.substr(0, 50) + " " + loc];
        p.first += nowS() - t0; p.second++;
    }
};
int Engine::sat(State& s, const expr& cond)
{
    SatTimer tm(*this, s);
    if (cond.is_true()) return 1;
    if (cond.is_false()) return 0;
    queries++;
    if (useGf2 && gf2Unsat(cond) == 0) { gf2Hits++; return 0; }
    if (s.model) {
        expr v = s.model->eval(cond, true);
        if (v.is_true()) { cacheHits++; return 1; }
    }
    // slice
    auto fv = *freeVars(cond);
    std::vector<expr> all, use;
    collectPc(s, all);
    std::vector<std::shared_ptr<std::set<unsigned>>> fvs;
    for (auto& e : all) fvs.push_back(freeVars(e));
    std::vector<char> in(all.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < all.size(); i++) {
            if (in[i]) continue;
            bool hit = false;
            for (unsigned x : *fvs[i]) if (fv.count(x)) { hit = true; break; }
            if (hit) { in[i] = 1; fv.insert(fvs[i]->begin(), fvs[i]->end()); ch = true; }
        }
    }
    std::vector<unsigned> ids;
    for (size_t i = 0; i < all.size(); i++) if (in[i]) { use.push_back(all[i]); ids.push_back(Z3_get_ast_id(*Z, all[i])); }
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((const char*)ids.data(), ids.size() * sizeof(unsigned));
    unsigned cid = Z3_get_ast_id(*Z, cond);
    key.append((const char*)&cid, sizeof cid);
    keepAlive.push_back(cond);
    auto it = qcache.find(key);
    if (it != qcache.end()) { cacheHits++; return it->second; }
    // recent models
    for (auto& m : models) {
        expr v = m.eval(cond, true);
        if (!v.is_true()) continue;
        bool ok = true;
        for (auto& c : use) { if (!m.eval(c, true).is_true()) { ok = false; break; } }
        if (ok) { qcache[key] = 1; cacheHits++; return 1; }
    }
    use.push_back(cond);
    if (linUnsat(s, cond) == 0) {
        static bool cross = getenv("VCX_LINCHECK") != nullptr; // self-test: the bit-vector solver must not disagree
        if (cross && solve(use, false, nullptr, 10000) == 1) { fprintf(stderr, "LIN UNSOUND\n"); abort(); }
        qcache[key] = 0;
        return 0;
    }
    {
        int r = incCheck(s, cond);
        if (r >= 0) { solverCalls++; qcache[key] = r; return r; }
    }
    int r = solve(use, false, nullptr, queryTimeoutMs);
    if (r >= 0) qcache[key] = r;
    return r;
}
std::string Engine::modelText(State& s, const expr& extra, bool& ok)
{
    std::vector<expr> cs;
    collectPc(s, cs);
    cs.push_back(extra);
    std::unique_ptr<z3::model> m;
    ok = false;
    for (uint64_t lim : { 8ull, 32ull, 128ull, 600ull, 2048ull, 70000ull, 0ull }) {
        auto c2 = cs;
        if (lim)
            for (auto& e : s.nd)
                if (e.kind == 1 && !e.v.c) c2.push_back(z3::ule(e.v.ex(), Z->bv_val((uint64_t)lim, 64)));
        int r = solve(c2, true, &m, lim ? 8000 : queryTimeoutMs);
        if (r == 1) { ok = true; break; }
    }
    if (!ok) return "";
    std::string t;
    char buf[64];
    for (auto& e : s.nd) {
        expr ve = m->eval(e.v.ex(), true);
        uint64_t v = 0;
        ve.is_numeral_u64(v);
        if (e.kind == 0) {
            snprintf(buf, sizeof buf, "u %llu ", (unsigned long long)v);
            t += buf + e.name + "\n";
        } else {
            if (v > 200000) { ok = false; return t; }
            snprintf(buf, sizeof buf, "b %llu ", (unsigned long long)v);
            t += buf;
            if (v == 0) t += "-";
            for (uint64_t i = 0; i < v; i++) {
                expr b = m->eval((*e.uf)(Z->bv_val((uint64_t)i, 64)), true);
                uint64_t x = 0;
                b.is_numeral_u64(x);
                snprintf(buf, sizeof buf, "%02x", (unsigned)x);
                t += buf;
            }
            t += " " + e.name + "\n";
        }
    }
    return t;
}
bool Engine::oblige(State& s, const expr& cond, const char* kind, const std::string& label)
{
    if (quiet) {
        if (cond.is_true()) return true;
        if (cond.is_false()) throw PathEnd();
        if (sat(s, cond) == 0) throw PathEnd();
        addPc(s, cond);
        return true;
    }
    std::string fn;
    std::string loc = where(s, nullptr, &fn);
    std::string key = std::string(kind) + "|" + fn + "|" + loc + "|" + label;
    Obligation& o = obls[key];
    if (o.kind.empty()) { o.kind = kind; o.fn = fn; o.loc = loc; o.label = label; }
    o.vcs++;
    if (cond.is_true()) { o.trivial++; return true; }
    int r = sat(s, bnot(cond));
    if (r == 0) { o.smt++; return true; }
    if (r == 1) {
        if (o.status != 1) {
            o.status = 1;
            bool ok;
            double t0 = nowS();
            o.model = modelText(s, bnot(cond), ok);
            o.detail = ok ? "counterexample" : "refuted (no finite model extracted)";
            std::string st;
            for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
                Frame& f = *s.frames[i];
                st += info(f.fn).dem;
                if (f.it != f.bb->end() && f.it->getDebugLoc()) st += ":" + std::to_string(f.it->getDebugLoc().getLine());
                st += "\n";
            }
            o.detail += "\n" + st;
            if (verbose) errs() << "  FAILED " << key << " (" << (nowS() - t0) << "s)\n" << o.model << st;
            if (verbose) for (auto t = s.tr; t; t = t->prev) errs() << "    tr " << t->t << "\n";
            int nf = 0;
            for (auto& kv : obls) if (kv.second.status == 1) nf++;
            if (nf >= maxFailed) throw Abort("too many failed obligations");
        }
    } else {
        if (o.status == 0) o.status = 2;
        if (verbose) errs() << "  UNKNOWN " << key << "\n";
    }
    if (cond.is_false() || sat(s, cond) == 0) throw PathEnd();
    addPc(s, cond);
    return r == 0;
}
