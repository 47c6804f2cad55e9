// GF(2) pre-solver: the bits of terms built from xor, shifts, masks, concatenation and selection between constants are
// affine forms over the bits of the remaining terms.  Two bit-vectors whose forms agree in every bit are equal, so the
// negated equation is unsatisfiable.  (Checksum tables that are linear are read as linear maps, see readInt.)
#include "engine.h"
#include <algorithm>

namespace {
typedef std::vector<uint64_t> Form; // sorted atom ids; 0 is the constant one
typedef std::shared_ptr<const Form> FormP;
typedef std::vector<FormP> Bits;
std::unordered_map<unsigned, std::shared_ptr<const Bits>> memo;
std::vector<expr> keep;
const FormP kZero = std::make_shared<Form>(), kOne = std::make_shared<Form>(Form{ 0 });
FormP fx(const FormP& a, const FormP& b)
{
    if (a->empty()) return b;
    if (b->empty()) return a;
    auto r = std::make_shared<Form>();
    std::set_symmetric_difference(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
    return r;
}
FormP atom(unsigned id, unsigned bit) { return std::make_shared<Form>(Form{ ((uint64_t)(id + 1) << 8) | bit }); }
bool numeral(const expr& e, std::vector<bool>& out)
{
    if (!e.is_numeral()) return false;
    const unsigned w = e.get_sort().bv_size();
    std::string s = Z3_get_numeral_binary_string(*Z, e);
    out.assign(w, false);
    for (size_t i = 0; i < s.size() && i < w; i++) out[i] = s[s.size() - 1 - i] == '1';
    return true;
}
const Bits& bitsOf(const expr& e);
FormP cond(const expr& c)
{
    if (c.is_true()) return kOne;
    if (c.is_false()) return kZero;
    const auto k = c.decl().decl_kind();
    if (k == Z3_OP_NOT) return fx(cond(c.arg(0)), kOne);
    if ((k == Z3_OP_EQ || k == Z3_OP_XOR) && c.arg(0).is_bool() && c.num_args() == 2) return fx(fx(cond(c.arg(0)), cond(c.arg(1))), k == Z3_OP_EQ ? kOne : kZero);
    if (k == Z3_OP_EQ && c.arg(0).is_bv() && c.arg(0).get_sort().bv_size() == 1) return fx(fx(bitsOf(c.arg(0))[0], bitsOf(c.arg(1))[0]), kOne);
    keep.push_back(c);
    return atom(Z3_get_ast_id(*Z, c), 255);
}
std::shared_ptr<const Bits> compute(const expr& e)
{
    const unsigned w = e.get_sort().bv_size();
    auto r = std::make_shared<Bits>(w, kZero);
    std::vector<bool> n;
    if (numeral(e, n)) {
        for (unsigned i = 0; i < w; i++) if (n[i]) (*r)[i] = kOne;
        return r;
    }
    auto opaque = [&]() {
        keep.push_back(e);
        for (unsigned i = 0; i < w; i++) (*r)[i] = atom(Z3_get_ast_id(*Z, e), i);
        return r;
    };
    if (!e.is_app() || w > 200) return opaque();
    switch (e.decl().decl_kind()) {
    case Z3_OP_BXOR:
        for (unsigned a = 0; a < e.num_args(); a++) { auto& b = bitsOf(e.arg(a)); for (unsigned i = 0; i < w; i++) (*r)[i] = fx((*r)[i], b[i]); }
        return r;
    case Z3_OP_BNOT: { auto& b = bitsOf(e.arg(0)); for (unsigned i = 0; i < w; i++) (*r)[i] = fx(b[i], kOne); return r; }
    case Z3_OP_BAND:
    case Z3_OP_BOR: {
        const bool isAnd = e.decl().decl_kind() == Z3_OP_BAND;
        Bits cur = bitsOf(e.arg(0));
        for (unsigned a = 1; a < e.num_args(); a++) {
            auto& b = bitsOf(e.arg(a));
            for (unsigned i = 0; i < w; i++) {
                const FormP &x = cur[i], &y = b[i];
                const FormP& absorb = isAnd ? kZero : kOne;
                const FormP& neutral = isAnd ? kOne : kZero;
                if (*x == *absorb || *y == *absorb) cur[i] = absorb;
                else if (*x == *neutral) cur[i] = y;
                else if (*y == *neutral || *x == *y) { }
                else return opaque();
            }
        }
        *r = cur;
        return r;
    }
    case Z3_OP_CONCAT: {
        unsigned at = w;
        for (unsigned a = 0; a < e.num_args(); a++) {
            auto& b = bitsOf(e.arg(a));
            at -= b.size();
            for (unsigned i = 0; i < b.size(); i++) (*r)[at + i] = b[i];
        }
        return r;
    }
    case Z3_OP_EXTRACT: { auto& b = bitsOf(e.arg(0)); const unsigned lo = e.lo(); for (unsigned i = 0; i < w; i++) (*r)[i] = b[lo + i]; return r; }
    case Z3_OP_ZERO_EXT: { auto& b = bitsOf(e.arg(0)); for (unsigned i = 0; i < b.size(); i++) (*r)[i] = b[i]; return r; }
    case Z3_OP_SIGN_EXT: { auto& b = bitsOf(e.arg(0)); for (unsigned i = 0; i < w; i++) (*r)[i] = b[std::min<size_t>(i, b.size() - 1)]; return r; }
    case Z3_OP_BSHL:
    case Z3_OP_BLSHR: {
        uint64_t k;
        if (!e.arg(1).is_numeral_u64(k)) return opaque();
        auto& b = bitsOf(e.arg(0));
        for (unsigned i = 0; i < w; i++) {
            if (e.decl().decl_kind() == Z3_OP_BSHL) { if (i >= k) (*r)[i] = b[i - k]; }
            else if (k < w && i + k < w) (*r)[i] = b[i + k];
        }
        return r;
    }
    case Z3_OP_ITE: {
        auto &a = bitsOf(e.arg(1)), &b = bitsOf(e.arg(2));
        FormP c;
        for (unsigned i = 0; i < w; i++) {
            FormP d = fx(a[i], b[i]);
            if (d->empty()) { (*r)[i] = a[i]; continue; }
            if (!(*d == *kOne)) return opaque();
            if (!c) c = cond(e.arg(0));
            (*r)[i] = fx(b[i], c);
        }
        return r;
    }
    default: return opaque();
    }
}
const Bits& bitsOf(const expr& e)
{
    const unsigned id = Z3_get_ast_id(*Z, e);
    auto it = memo.find(id);
    if (it != memo.end()) return *it->second;
    auto r = compute(e);
    keep.push_back(e);
    return *(memo[id] = r);
}
// the Boolean e is true / false whatever the atoms are
bool always(const expr& e, bool val)
{
    if (e.is_true()) return val;
    if (e.is_false()) return !val;
    if (!e.is_app()) return false;
    const auto k = e.decl().decl_kind();
    if (k == Z3_OP_NOT) return always(e.arg(0), !val);
    if ((k == Z3_OP_AND && val) || (k == Z3_OP_OR && !val)) {
        for (unsigned i = 0; i < e.num_args(); i++) if (!always(e.arg(i), val)) return false;
        return true;
    }
    if (k == Z3_OP_EQ || (k == Z3_OP_DISTINCT && e.num_args() == 2)) {
        const bool same = (k == Z3_OP_EQ) == val;
        if (e.arg(0).is_bv()) {
            const Bits x = bitsOf(e.arg(0)), y = bitsOf(e.arg(1));
            if (same) { for (size_t i = 0; i < x.size(); i++) if (*x[i] != *y[i]) return false; return true; }
            for (size_t i = 0; i < x.size(); i++) if (*fx(x[i], y[i]) == *kOne) return true; // some bit always differs
            return false;
        }
        if (e.arg(0).is_bool()) return *fx(cond(e.arg(0)), cond(e.arg(1))) == (same ? *kZero : *kOne);
    }
    return false;
}
}
// 0: the condition (a negated equation) is unsatisfiable; -1: not decided
int gf2Unsat(const expr& c) { return always(c, false) ? 0 : -1; }
