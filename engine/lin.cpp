// Linear pre-solver: bit-vector terms are translated exactly into linear integer arithmetic (wrap-around by an integer
// quotient variable); everything non-linear becomes an unconstrained atom of its range.  The translation only forgets
// constraints, so "unsat" here implies "unsat" of the bit-vector query; "sat" is inconclusive.
#include "engine.h"
#include <algorithm>
#include <chrono>

namespace {
struct Tr {
    std::shared_ptr<expr> v;     // Int (or Bool) term
    std::vector<expr> side;      // definitional constraints
    std::vector<unsigned> deps;
    // syntactic bounds (as doubles are not exact we use __int128)
    __int128 lo = 0, hi = 0;
};
std::unordered_map<unsigned, Tr> cache;
std::vector<expr> keep;
std::unique_ptr<z3::solver> sol;
std::vector<std::shared_ptr<const PcNode>> stack;
std::vector<std::vector<unsigned>> scopeDefs;
std::unordered_map<unsigned, int> asserted;
unsigned fresh = 0;
typedef __int128 I;
I pw(unsigned k) { return (I)1 << k; }
std::string istr(I x)
{
    if (x == 0) return "0";
    bool n = x < 0;
    unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x;
    std::string s;
    while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
expr num(I x) { return Z->int_val(istr(x).c_str()); }
expr freshInt() { return Z->int_const(("li!" + std::to_string(fresh++)).c_str()); }
unsigned idOf(const expr& e) { return Z3_get_ast_id(*Z, e); }
const Tr& trBv(const expr& e);
const Tr& trBool(const expr& e);
I floorDiv(I a, I b) { I q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }

void reduce(Tr& t, const expr& L, I lo, I hi, unsigned w)
{
    // value of the mathematical integer L in [lo,hi] modulo 2^w
    I m = pw(w);
    if (lo >= 0 && hi < m) { t.v = std::make_shared<expr>(L); t.lo = lo; t.hi = hi; return; }
    expr v = freshInt();
    I ql = -floorDiv(hi, m), qh = -floorDiv(lo, m);
    if (ql == qh) { t.v = std::make_shared<expr>(L + num(ql * m)); t.lo = std::max<I>(0, lo + ql * m); t.hi = std::min<I>(m - 1, hi + ql * m); return; }
    expr q = freshInt();
    t.side.push_back(v == L + num(m) * q);
    t.side.push_back(q >= num(ql)); t.side.push_back(q <= num(qh));
    t.side.push_back(v >= 0); t.side.push_back(v <= num(m - 1));
    t.v = std::make_shared<expr>(v);
    t.lo = 0; t.hi = m - 1;
}
Tr atom(unsigned w)
{
    Tr t;
    expr v = freshInt();
    t.v = std::make_shared<expr>(v);
    t.lo = 0; t.hi = pw(w) - 1;
    t.side.push_back(v >= 0); t.side.push_back(v <= num(t.hi));
    return t;
}
// additive view: coefficient 1 or -1 terms
void addTerms(const expr& e, int sg, std::vector<std::pair<I, expr>>& out, I& k, unsigned w)
{
    if (e.is_app()) {
        auto d = e.decl().decl_kind();
        if (d == Z3_OP_BADD) { for (unsigned i = 0; i < e.num_args(); i++) addTerms(e.arg(i), sg, out, k, w); return; }
        if (d == Z3_OP_BSUB && e.num_args() == 2) { addTerms(e.arg(0), sg, out, k, w); addTerms(e.arg(1), -sg, out, k, w); return; }
        if (d == Z3_OP_BNEG) { addTerms(e.arg(0), -sg, out, k, w); return; }
        if (d == Z3_OP_BMUL && e.num_args() == 2 && e.arg(0).is_numeral()) {
            uint64_t u;
            if (e.arg(0).is_numeral_u64(u)) {
                I c = u;
                if (c >= pw(w - 1)) c -= pw(w);
                if (c > -(I)(1 << 20) && c < (1 << 20)) { out.push_back({ c * sg, e.arg(1) }); return; }
            }
        }
        if (e.is_numeral()) {
            uint64_t u;
            if (e.is_numeral_u64(u)) { I c = u; if (c >= pw(w - 1)) c -= pw(w); k += c * sg; return; }
        }
    }
    out.push_back({ sg, e });
}
Tr buildBv(const expr& e)
{
    unsigned w = e.get_sort().bv_size();
    Tr t;
    if (w > 64 || !e.is_app()) { if (w > 100) throw 0; return atom(w); }
    if (e.is_numeral()) {
        uint64_t u;
        if (!e.is_numeral_u64(u)) return atom(w);
        t.v = std::make_shared<expr>(num((I)u)); t.lo = t.hi = u;
        return t;
    }
    auto d = e.decl().decl_kind();
    switch (d) {
    case Z3_OP_BADD: case Z3_OP_BSUB: case Z3_OP_BNEG: case Z3_OP_BMUL: {
        std::vector<std::pair<I, expr>> ts;
        I k = 0;
        addTerms(e, 1, ts, k, w);
        if (ts.size() == 1 && k == 0 && ts[0].first == 1 && idOf(ts[0].second) == idOf(e)) return atom(w);
        expr L = num(k);
        I lo = k, hi = k;
        for (auto& p : ts) {
            const Tr& x = trBv(p.second);
            t.deps.push_back(idOf(p.second));
            if (p.first == 1) L = L + *x.v; else if (p.first == -1) L = L - *x.v; else L = L + num(p.first) * *x.v;
            lo += p.first > 0 ? p.first * x.lo : p.first * x.hi;
            hi += p.first > 0 ? p.first * x.hi : p.first * x.lo;
        }
        reduce(t, L, lo, hi, w);
        return t;
    }
    case Z3_OP_CONCAT: {
        expr L = num(0);
        unsigned sh = w;
        I lo = 0, hi = 0;
        for (unsigned i = 0; i < e.num_args(); i++) {
            expr a = e.arg(i);
            sh -= a.get_sort().bv_size();
            const Tr& x = trBv(a);
            t.deps.push_back(idOf(a));
            if (x.lo == 0 && x.hi == 0) continue;
            L = L + num(pw(sh)) * *x.v;
            lo += x.lo * pw(sh); hi += x.hi * pw(sh);
        }
        t.v = std::make_shared<expr>(L); t.lo = lo; t.hi = hi;
        return t;
    }
    case Z3_OP_ZERO_EXT: {
        const Tr& x = trBv(e.arg(0));
        t.deps.push_back(idOf(e.arg(0)));
        t.v = x.v; t.lo = x.lo; t.hi = x.hi;
        return t;
    }
    case Z3_OP_SIGN_EXT: {
        unsigned w0 = e.arg(0).get_sort().bv_size();
        const Tr& x = trBv(e.arg(0));
        t.deps.push_back(idOf(e.arg(0)));
        if (x.hi < pw(w0 - 1)) { t.v = x.v; t.lo = x.lo; t.hi = x.hi; return t; }
        t.v = std::make_shared<expr>(z3::ite(*x.v >= num(pw(w0 - 1)), *x.v + num(pw(w) - pw(w0)), *x.v));
        t.lo = 0; t.hi = pw(w) - 1;
        return t;
    }
    case Z3_OP_EXTRACT: {
        unsigned hi = e.hi(), lo = e.lo();
        expr a = e.arg(0);
        unsigned aw = a.get_sort().bv_size();
        if (aw > 64) return atom(w);
        const Tr& x = trBv(a);
        t.deps.push_back(idOf(a));
        bool noQ = x.hi < pw(hi + 1);
        if (noQ && lo == 0) { t.v = x.v; t.lo = x.lo; t.hi = x.hi; return t; }
        expr v = freshInt();
        expr L = lo ? num(pw(lo)) * v : v;
        if (lo) { expr r = freshInt(); t.side.push_back(r >= 0); t.side.push_back(r < num(pw(lo))); L = L + r; }
        if (!noQ) { expr q = freshInt(); t.side.push_back(q >= 0); t.side.push_back(q < num(pw(aw - hi - 1))); L = L + num(pw(hi + 1)) * q; }
        t.side.push_back(*x.v == L);
        t.lo = 0; t.hi = noQ ? floorDiv(x.hi, pw(lo)) : pw(w) - 1;
        t.side.push_back(v >= 0); t.side.push_back(v <= num(t.hi));
        t.v = std::make_shared<expr>(v);
        return t;
    }
    case Z3_OP_ITE: {
        const Tr& c = trBool(e.arg(0)); const Tr& x = trBv(e.arg(1)); const Tr& y = trBv(e.arg(2));
        for (int i = 0; i < 3; i++) t.deps.push_back(idOf(e.arg(i)));
        t.v = std::make_shared<expr>(z3::ite(*c.v, *x.v, *y.v));
        t.lo = std::min(x.lo, y.lo); t.hi = std::max(x.hi, y.hi);
        return t;
    }
    case Z3_OP_BAND: {
        // masks
        t = atom(w);
        for (unsigned i = 0; i < e.num_args(); i++) {
            const Tr& x = trBv(e.arg(i));
            t.deps.push_back(idOf(e.arg(i)));
            t.side.push_back(*t.v <= *x.v);
            t.hi = std::min(t.hi, x.hi);
        }
        return t;
    }
    case Z3_OP_BUREM: case Z3_OP_BUREM_I: case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: {
        uint64_t c;
        if (!e.arg(1).is_numeral_u64(c) || c == 0) return atom(w);
        const Tr& x = trBv(e.arg(0));
        t.deps.push_back(idOf(e.arg(0)));
        expr q = freshInt(), r = freshInt();
        t.side.push_back(*x.v == num((I)c) * q + r);
        t.side.push_back(r >= 0); t.side.push_back(r < num((I)c)); t.side.push_back(q >= 0);
        bool rem = d == Z3_OP_BUREM || d == Z3_OP_BUREM_I;
        t.v = std::make_shared<expr>(rem ? r : q);
        t.lo = 0; t.hi = rem ? std::min<I>(x.hi, (I)c - 1) : x.hi / (I)c;
        return t;
    }
    default: return atom(w);
    }
}
Tr buildBool(const expr& e)
{
    Tr t;
    auto dep = [&](const expr& x) { t.deps.push_back(idOf(x)); };
    auto fr = [&]() { t.v = std::make_shared<expr>(Z->bool_const(("lb!" + std::to_string(fresh++)).c_str())); return t; };
    if (!e.is_app()) return fr();
    auto d = e.decl().decl_kind();
    auto sg = [&](const Tr& x, unsigned w) { return x.hi < pw(w - 1) ? *x.v : z3::ite(*x.v >= num(pw(w - 1)), *x.v - num(pw(w)), *x.v); };
    switch (d) {
    case Z3_OP_TRUE: case Z3_OP_FALSE: t.v = std::make_shared<expr>(e); return t;
    case Z3_OP_NOT: { const Tr& x = trBool(e.arg(0)); dep(e.arg(0)); t.v = std::make_shared<expr>(!*x.v); return t; }
    case Z3_OP_AND: case Z3_OP_OR: {
        z3::expr_vector v(*Z);
        for (unsigned i = 0; i < e.num_args(); i++) { v.push_back(*trBool(e.arg(i)).v); dep(e.arg(i)); }
        t.v = std::make_shared<expr>(d == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v));
        return t;
    }
    case Z3_OP_IMPLIES: { expr a = *trBool(e.arg(0)).v, b = *trBool(e.arg(1)).v; dep(e.arg(0)); dep(e.arg(1)); t.v = std::make_shared<expr>(!a || b); return t; }
    case Z3_OP_XOR: { if (e.num_args() != 2) return fr(); expr a = *trBool(e.arg(0)).v, b = *trBool(e.arg(1)).v; dep(e.arg(0)); dep(e.arg(1)); t.v = std::make_shared<expr>(a != b); return t; }
    case Z3_OP_ITE: { expr c = *trBool(e.arg(0)).v, a = *trBool(e.arg(1)).v, b = *trBool(e.arg(2)).v; for (int i = 0; i < 3; i++) dep(e.arg(i)); t.v = std::make_shared<expr>(z3::ite(c, a, b)); return t; }
    case Z3_OP_EQ: case Z3_OP_DISTINCT: {
        if (e.num_args() != 2) return fr();
        if (e.arg(0).is_bool()) { expr a = *trBool(e.arg(0)).v, b = *trBool(e.arg(1)).v; dep(e.arg(0)); dep(e.arg(1)); t.v = std::make_shared<expr>(d == Z3_OP_EQ ? a == b : a != b); return t; }
        if (!e.arg(0).is_bv()) return fr();
        expr a = *trBv(e.arg(0)).v, b = *trBv(e.arg(1)).v;
        dep(e.arg(0)); dep(e.arg(1));
        t.v = std::make_shared<expr>(d == Z3_OP_EQ ? a == b : a != b);
        return t;
    }
    case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT:
    case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
        unsigned w = e.arg(0).get_sort().bv_size();
        Tr ta = trBv(e.arg(0)), tb = trBv(e.arg(1));
        dep(e.arg(0)); dep(e.arg(1));
        bool s = d == Z3_OP_SLEQ || d == Z3_OP_SLT || d == Z3_OP_SGEQ || d == Z3_OP_SGT;
        expr a = s ? sg(ta, w) : *ta.v, b = s ? sg(tb, w) : *tb.v;
        expr r = a <= b;
        if (d == Z3_OP_ULT || d == Z3_OP_SLT) r = a < b;
        else if (d == Z3_OP_UGEQ || d == Z3_OP_SGEQ) r = a >= b;
        else if (d == Z3_OP_UGT || d == Z3_OP_SGT) r = a > b;
        t.v = std::make_shared<expr>(r);
        return t;
    }
    default: return fr();
    }
}
const Tr& trBv(const expr& e)
{
    auto it = cache.find(idOf(e));
    if (it != cache.end()) return it->second;
    Tr t = buildBv(e);
    keep.push_back(e);
    return cache[idOf(e)] = t;
}
const Tr& trBool(const expr& e)
{
    auto it = cache.find(idOf(e));
    if (it != cache.end()) return it->second;
    Tr t = buildBool(e);
    keep.push_back(e);
    return cache[idOf(e)] = t;
}
void ensure(unsigned id, std::vector<unsigned>* scope)
{
    if (asserted.count(id)) return;
    asserted[id] = 1;
    if (scope) scope->push_back(id);
    const Tr& t = cache.at(id);
    for (unsigned d : t.deps) ensure(d, scope);
    for (auto& c : t.side) sol->add(c);
}
}

// 0: pc and cond is unsatisfiable; -1: don't know
int Engine::linUnsat(State& s, const expr& cond)
{
    static bool off = getenv("VCX_NOLIN") != nullptr;
    if (off) return -1;
    linCalls++;
    int r = -1;
    auto t0 = std::chrono::steady_clock::now();
    try {
        if (!sol || linCalls % 20000 == 19999) {
            sol = std::make_unique<z3::solver>(*Z, Z3_mk_simple_solver(*Z));
            stack.clear(); scopeDefs.clear(); asserted.clear();
        }
        std::vector<std::shared_ptr<const PcNode>> ch;
        for (auto p = s.pc; p; p = p->next) ch.push_back(p);
        std::reverse(ch.begin(), ch.end());
        size_t k = 0;
        while (k < ch.size() && k < stack.size() && ch[k] == stack[k]) k++;
        if (stack.size() > k) {
            sol->pop((unsigned)(stack.size() - k));
            while (stack.size() > k) { for (unsigned id : scopeDefs.back()) asserted.erase(id); scopeDefs.pop_back(); stack.pop_back(); }
        }
        for (; k < ch.size(); k++) {
            const Tr t = trBool(ch[k]->e);
            sol->push(); stack.push_back(ch[k]); scopeDefs.emplace_back();
            ensure(idOf(ch[k]->e), &scopeDefs.back());
            sol->add(*t.v);
        }
        const Tr t = trBool(cond);
        std::vector<unsigned> tmp;
        z3::params p(*Z);
        p.set("timeout", 60u);
        sol->set(p);
        sol->push();
        ensure(idOf(cond), &tmp);
        sol->add(*t.v);
        auto cr = sol->check();
        sol->pop();
        for (unsigned id : tmp) asserted.erase(id);
        if (cr == z3::unsat) { r = 0; linHits++; }
    } catch (z3::exception& e) { sol.reset(); }
    catch (int) { sol.reset(); }
    linMs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000;
    return r;
}
