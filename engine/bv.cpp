#include "bv.h"
z3::context* Z = nullptr;

Bv Bv::sym(const expr& x)
{
    Bv r;
    r.w = x.get_sort().bv_size();
    if (x.is_numeral() && r.w <= 64) {
        uint64_t u;
        if (Z3_get_numeral_uint64(x.ctx(), x, &u)) {
            r.c = true;
            r.v = u;
            return r;
        }
    }
    r.c = false;
    r.e = std::make_shared<expr>(x);
    return r;
}
expr Bv::ex() const
{
    if (c) {
        return Z->bv_val((uint64_t)v, w);
    }
    return *e;
}
static uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    return (int64_t)((v ^ m) - m);
}
expr toBool(const Bv& b)
{
    if (b.c) return Z->bool_val(b.v != 0);
    const expr& e = *b.e;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE && e.arg(1).is_numeral() && e.arg(2).is_numeral()) {
        uint64_t x, y;
        if (e.arg(1).is_numeral_u64(x) && e.arg(2).is_numeral_u64(y)) {
            if (x == 1 && y == 0) return e.arg(0);
            if (x == 0 && y == 1) return !e.arg(0);
        }
    }
    return e == Z->bv_val(1, 1);
}
Bv fromBool(const expr& b)
{
    if (b.is_true()) return Bv(1, 1);
    if (b.is_false()) return Bv(1, 0);
    return Bv::sym(z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1)));
}
expr bnot(const expr& b)
{
    if (b.is_true()) return Z->bool_val(false);
    if (b.is_false()) return Z->bool_val(true);
    if (b.is_app() && b.decl().decl_kind() == Z3_OP_NOT) return b.arg(0);
    return !b;
}
expr band(const expr& a, const expr& b)
{
    if (a.is_true()) return b;
    if (b.is_true()) return a;
    if (a.is_false() || b.is_false()) return Z->bool_val(false);
    return a && b;
}
expr bor(const expr& a, const expr& b)
{
    if (a.is_false()) return b;
    if (b.is_false()) return a;
    if (a.is_true() || b.is_true()) return Z->bool_val(true);
    return a || b;
}
// split e into (base, const) for additions
static void splitAdd(const Bv& a, std::shared_ptr<expr>& base, uint64_t& k)
{
    k = 0;
    base = nullptr;
    if (a.c) { k = a.v; return; }
    const expr& e = *a.e;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_BADD && e.num_args() == 2) {
        uint64_t u;
        if (e.arg(1).is_numeral() && a.w <= 64 && e.arg(1).is_numeral_u64(u)) {
            base = std::make_shared<expr>(e.arg(0));
            k = u;
            return;
        }
    }
    base = a.e;
}
static bool sameExpr(const Bv& a, const Bv& b)
{
    if (a.c != b.c) return false;
    if (a.c) return a.v == b.v;
    return z3::eq(*a.e, *b.e);
}
Bv bvAdd(const Bv& a, const Bv& b)
{
    if (a.c && b.c && a.w <= 64) return Bv(a.w, a.v + b.v);
    if (a.c && a.v == 0 && a.w <= 64) return b;
    if (b.c && b.v == 0 && b.w <= 64) return a;
    if (a.w <= 64) {
        std::shared_ptr<expr> xa, xb;
        uint64_t ka, kb;
        splitAdd(a, xa, ka);
        splitAdd(b, xb, kb);
        uint64_t k = (ka + kb) & msk(a.w);
        expr base = (xa && xb) ? (*xa + *xb) : (xa ? *xa : *xb);
        // (x - y) + y -> x
        if (xa && xb) {
            const expr& p = *xa; const expr& q = *xb;
            if (p.is_app() && p.decl().decl_kind() == Z3_OP_BSUB && p.num_args() == 2 && z3::eq(p.arg(1), q)) base = p.arg(0);
            else if (q.is_app() && q.decl().decl_kind() == Z3_OP_BSUB && q.num_args() == 2 && z3::eq(q.arg(1), p)) base = q.arg(0);
        }
        if (k == 0) return Bv::sym(base);
        return Bv::sym(base + Z->bv_val((uint64_t)k, a.w));
    }
    return Bv::sym(a.ex() + b.ex());
}
Bv bvSub(const Bv& a, const Bv& b)
{
    if (a.w <= 64) {
        if (a.c && b.c) return Bv(a.w, a.v - b.v);
        if (b.c) return bvAdd(a, Bv(a.w, (0 - b.v) & msk(a.w)));
        if (sameExpr(a, b)) return Bv(a.w, 0);
        std::shared_ptr<expr> xa, xb;
        uint64_t ka, kb;
        splitAdd(a, xa, ka);
        splitAdd(b, xb, kb);
        uint64_t k = (ka - kb) & msk(a.w);
        if (xa && xb && z3::eq(*xa, *xb)) return Bv(a.w, k);
        if (xa && xb && (ka || kb)) {
            expr base = *xa - *xb;
            const expr& p = *xa;
            if (p.is_app() && p.decl().decl_kind() == Z3_OP_BADD && p.num_args() == 2) {
                if (z3::eq(p.arg(0), *xb)) base = p.arg(1);
                else if (z3::eq(p.arg(1), *xb)) base = p.arg(0);
            }
            return k ? bvAdd(Bv::sym(base), Bv(a.w, k)) : Bv::sym(base);
        }
        if (xa && xb) {
            const expr& p = *xa;
            if (p.is_app() && p.decl().decl_kind() == Z3_OP_BADD && p.num_args() == 2) {
                if (z3::eq(p.arg(0), *xb)) return Bv::sym(p.arg(1));
                if (z3::eq(p.arg(1), *xb)) return Bv::sym(p.arg(0));
            }
            // flatten via simplifier (cancels sums)
            expr s = (*xa - *xb).simplify();
            return Bv::sym(s);
        }
        return Bv::sym(a.ex() - b.ex());
    }
    return Bv::sym(a.ex() - b.ex());
}
Bv bvBin(BO op, const Bv& a, const Bv& b)
{
    unsigned w = a.w;
    if (op == BO::Add) return bvAdd(a, b);
    if (op == BO::Sub) return bvSub(a, b);
    if (a.c && b.c && w <= 64) {
        uint64_t x = a.v, y = b.v;
        switch (op) {
        case BO::Mul: return Bv(w, x * y);
        case BO::UDiv: return y ? Bv(w, x / y) : Bv(w, 0);
        case BO::URem: return y ? Bv(w, x % y) : Bv(w, x);
        case BO::SDiv: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return Bv(w, 0); if (q == -1) return Bv(w, 0 - x); return Bv(w, (uint64_t)(p / q)); }
        case BO::SRem: { int64_t p = sx(x, w), q = sx(y, w); if (!q) return Bv(w, x); if (q == -1) return Bv(w, 0); return Bv(w, (uint64_t)(p % q)); }
        case BO::And: return Bv(w, x & y);
        case BO::Or: return Bv(w, x | y);
        case BO::Xor: return Bv(w, x ^ y);
        case BO::Shl: return y >= w ? Bv(w, 0) : Bv(w, x << y);
        case BO::LShr: return y >= w ? Bv(w, 0) : Bv(w, x >> y);
        case BO::AShr: { int64_t p = sx(x, w); if (y >= w) return Bv(w, p < 0 ? ~0ull : 0); return Bv(w, (uint64_t)(p >> y)); }
        default: break;
        }
    }
    if (w == 1 && (op == BO::And || op == BO::Or || op == BO::Xor)) {
        expr x = toBool(a), y = toBool(b);
        if (op == BO::And) return fromBool(band(x, y));
        if (op == BO::Or) return fromBool(bor(x, y));
        if (y.is_true()) return fromBool(bnot(x));
        if (y.is_false()) return a;
        if (x.is_true()) return fromBool(bnot(y));
        if (x.is_false()) return b;
        return fromBool(x != y);
    }
    if (w <= 64) {
        uint64_t m = msk(w);
        auto is = [&](const Bv& q, uint64_t k) { return q.c && q.v == (k & m); };
        switch (op) {
        case BO::And:
            if (is(a, 0) || is(b, 0)) return Bv(w, 0);
            if (is(a, m)) return b;
            if (is(b, m)) return a;
            if (sameExpr(a, b)) return a;
            break;
        case BO::Or:
            if (is(a, 0)) return b;
            if (is(b, 0)) return a;
            if (is(a, m) || is(b, m)) return Bv(w, m);
            if (sameExpr(a, b)) return a;
            break;
        case BO::Xor:
            if (is(a, 0)) return b;
            if (is(b, 0)) return a;
            if (sameExpr(a, b)) return Bv(w, 0);
            break;
        case BO::Mul:
            if (is(a, 0) || is(b, 0)) return Bv(w, 0);
            if (is(a, 1)) return b;
            if (is(b, 1)) return a;
            if (b.c && !(b.v & (b.v - 1))) return bvBin(BO::Shl, a, Bv(w, __builtin_ctzll(b.v)));
            if (a.c && !(a.v & (a.v - 1))) return bvBin(BO::Shl, b, Bv(w, __builtin_ctzll(a.v)));
            break;
        case BO::Shl:
        case BO::LShr:
            if (is(b, 0)) return a;
            if (is(a, 0)) return a;
            if (b.c && b.v >= w) return Bv(w, 0);
            break;
        case BO::AShr:
            if (is(b, 0)) return a;
            break;
        case BO::UDiv:
            if (is(b, 1)) return a;
            // power of two
            if (b.c && b.v && !(b.v & (b.v - 1))) return bvBin(BO::LShr, a, Bv(w, __builtin_ctzll(b.v)));
            break;
        case BO::URem:
            if (b.c && b.v && !(b.v & (b.v - 1))) return bvBin(BO::And, a, Bv(w, b.v - 1));
            break;
        default: break;
        }
        // constant shifts / masks by extract+concat: helps the simplifier see bytes
        if ((op == BO::LShr) && b.c && b.v < w) {
            expr hi = a.ex().extract(w - 1, (unsigned)b.v);
            return Bv::sym(z3::zext(hi, (unsigned)b.v).simplify());
        }
        if ((op == BO::Shl) && b.c && b.v < w) {
            expr lo = a.ex().extract(w - 1 - (unsigned)b.v, 0);
            return Bv::sym(z3::concat(lo, Z->bv_val(0, (unsigned)b.v)).simplify());
        }
    }
    expr x = a.ex(), y = b.ex();
    switch (op) {
    case BO::Mul: return Bv::sym(x * y);
    case BO::UDiv: return Bv::sym(z3::udiv(x, y));
    case BO::URem: return Bv::sym(z3::urem(x, y));
    case BO::SDiv: return Bv::sym(x / y);
    case BO::SRem: return Bv::sym(z3::srem(x, y));
    case BO::And: { expr r = (x & y); if (b.c || a.c) r = r.simplify(); return Bv::sym(r); }
    case BO::Or: { expr r = (x | y).simplify(); return Bv::sym(r); }
    case BO::Xor: return Bv::sym(x ^ y);
    case BO::Shl: return Bv::sym(z3::shl(x, y));
    case BO::LShr: return Bv::sym(z3::lshr(x, y));
    case BO::AShr: return Bv::sym(z3::ashr(x, y));
    default: abort();
    }
}
expr bvCmp(CMP op, const Bv& a, const Bv& b)
{
    if (a.c && b.c && a.w <= 64) {
        uint64_t x = a.v, y = b.v;
        int64_t p = sx(x, a.w), q = sx(y, a.w);
        bool r = false;
        switch (op) {
        case CMP::EQ: r = x == y; break;
        case CMP::NE: r = x != y; break;
        case CMP::ULT: r = x < y; break;
        case CMP::ULE: r = x <= y; break;
        case CMP::SLT: r = p < q; break;
        case CMP::SLE: r = p <= q; break;
        }
        return Z->bool_val(r);
    }
    if (sameExpr(a, b)) return Z->bool_val(op == CMP::EQ || op == CMP::ULE || op == CMP::SLE);
    if (a.w <= 64 && (op == CMP::EQ || op == CMP::NE)) {
        Bv d = bvSub(a, b);
        if (d.c) return Z->bool_val((d.v == 0) == (op == CMP::EQ));
    }
    expr x = a.ex(), y = b.ex();
    switch (op) {
    case CMP::EQ: return (x == y).simplify();
    case CMP::NE: return (x != y).simplify();
    case CMP::ULT: return z3::ult(x, y);
    case CMP::ULE: return z3::ule(x, y);
    case CMP::SLT: return x < y;
    case CMP::SLE: return x <= y;
    }
    abort();
}
Bv bvExtract(const Bv& a, unsigned hi, unsigned lo)
{
    unsigned w = hi - lo + 1;
    if (lo == 0 && w == a.w) return a;
    if (a.c && a.w <= 64) return Bv(w, a.v >> lo);
    return Bv::sym(a.ex().extract(hi, lo).simplify());
}
Bv bvZext(const Bv& a, unsigned w)
{
    if (w == a.w) return a;
    if (a.c && w <= 64) return Bv(w, a.v);
    if (a.w == 1 && !a.c) return Bv::sym(z3::ite(toBool(a), Z->bv_val(1, w), Z->bv_val(0, w)));
    return Bv::sym(z3::zext(a.ex(), w - a.w));
}
Bv bvSext(const Bv& a, unsigned w)
{
    if (w == a.w) return a;
    if (a.c && w <= 64) return Bv(w, (uint64_t)sx(a.v, a.w));
    return Bv::sym(z3::sext(a.ex(), w - a.w));
}
Bv bvConcat(const Bv& hi, const Bv& lo)
{
    if (hi.c && lo.c && hi.w + lo.w <= 64) return Bv(hi.w + lo.w, (hi.v << lo.w) | lo.v);
    return Bv::sym(z3::concat(hi.ex(), lo.ex()));
}
Bv bvIte(const expr& c, const Bv& a, const Bv& b)
{
    if (c.is_true()) return a;
    if (c.is_false()) return b;
    if (sameExpr(a, b)) return a;
    if (a.w == 1) {
        return fromBool(bor(band(c, toBool(a)), band(bnot(c), toBool(b))));
    }
    return Bv::sym(z3::ite(c, a.ex(), b.ex()));
}
