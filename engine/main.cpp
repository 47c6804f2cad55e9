// vcx driver: link bitcode, prepare, run harnesses, report
#include "engine.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static const std::set<std::string> kZeroExterns = {
    "printf", "fprintf", "vfprintf", "puts", "putchar", "fputc", "fputs", "fflush", "fwrite", "snprintf", "vsnprintf",
    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock",
    "__cxa_atexit", "atexit", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "__cxa_guard_release_",
    "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "sched_yield",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev",
    "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
};
static bool startsWith(StringRef s, const char* p) { return s.starts_with(p); }

bool Engine::intrinsic(StateP& sp, llvm::Function* f, std::vector<Val>& a, CallInst* ci, std::vector<StateP>& out, bool& cont)
{
    State& s = *sp;
    StringRef n = f->getName();
    auto ret = [&](const Val& v) { if (ci && !ci->getType()->isVoidTy()) setReg(*sp, ci, v); };
    auto retInt = [&](const Bv& b) { ret(Val::mkInt(b)); };
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
            doMemcpy(s, a[0], a[1], a[2].i.w < 64 ? bvZext(a[2].i, 64) : a[2].i);
            return true;
        case Intrinsic::memset:
            doMemset(s, a[0], a[1].i, a[2].i.w < 64 ? bvZext(a[2].i, 64) : a[2].i);
            return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
        case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            if (!f->getReturnType()->isVoidTy()) ret(Val::mkNull());
            return true;
        case Intrinsic::vastart: return true;
        case Intrinsic::stacksave: ret(Val::mkNull()); return true;
        case Intrinsic::expect: ret(a[0]); return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(a[0]); return true;
        case Intrinsic::assume: {
            expr c = toBool(a[0].i);
            oblige(s, c, "llvm-assume", "");
            return true;
        }
        case Intrinsic::trap: fail(s, "trap", "trap");
        case Intrinsic::ubsantrap: fail(s, "undefined-behaviour", "ubsan check " + std::to_string(a[0].i.v));
        case Intrinsic::is_constant: retInt(Bv(1, 0)); return true;
        case Intrinsic::objectsize: retInt(Bv(ci->getType()->getIntegerBitWidth(), ~0ull)); return true;
        case Intrinsic::umin: retInt(bvIte(bvCmp(CMP::ULT, a[0].i, a[1].i), a[0].i, a[1].i)); return true;
        case Intrinsic::umax: retInt(bvIte(bvCmp(CMP::ULT, a[0].i, a[1].i), a[1].i, a[0].i)); return true;
        case Intrinsic::smin: retInt(bvIte(bvCmp(CMP::SLT, a[0].i, a[1].i), a[0].i, a[1].i)); return true;
        case Intrinsic::smax: retInt(bvIte(bvCmp(CMP::SLT, a[0].i, a[1].i), a[1].i, a[0].i)); return true;
        case Intrinsic::abs: retInt(bvIte(bvCmp(CMP::SLT, a[0].i, Bv(a[0].i.w, 0)), bvSub(Bv(a[0].i.w, 0), a[0].i), a[0].i)); return true;
        case Intrinsic::usub_sat: retInt(bvIte(bvCmp(CMP::ULT, a[0].i, a[1].i), Bv(a[0].i.w, 0), bvSub(a[0].i, a[1].i))); return true;
        case Intrinsic::uadd_sat: { Bv r = bvAdd(a[0].i, a[1].i); retInt(bvIte(bvCmp(CMP::ULT, r, a[0].i), Bv(r.w, ~0ull), r)); return true; }
        case Intrinsic::bswap: {
            unsigned w = a[0].i.w;
            Bv r = bvExtract(a[0].i, 7, 0);
            for (unsigned j = 8; j < w; j += 8) r = bvConcat(r, bvExtract(a[0].i, j + 7, j));
            retInt(r);
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned w = a[0].i.w;
            if (!a[2].i.c) {
                if (w > 32) throw Abort("symbolic funnel shift");
                Bv cat = bvConcat(a[0].i, a[1].i);
                Bv sh = bvZext(bvBin(BO::URem, a[2].i, Bv(w, w)), 2 * w);
                if (f->getIntrinsicID() == Intrinsic::fshl) retInt(bvExtract(bvBin(BO::Shl, cat, sh), 2 * w - 1, w));
                else retInt(bvExtract(bvBin(BO::LShr, cat, sh), w - 1, 0));
                return true;
            }
            unsigned k = (unsigned)(a[2].i.v % w);
            if (k == 0) { retInt(f->getIntrinsicID() == Intrinsic::fshl ? a[0].i : a[1].i); return true; }
            if (f->getIntrinsicID() == Intrinsic::fshr) k = w - k;
            retInt(bvBin(BO::Or, bvBin(BO::Shl, a[0].i, Bv(w, k)), bvBin(BO::LShr, a[1].i, Bv(w, w - k))));
            return true;
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            unsigned w = a[0].i.w;
            Bv r(w, f->getIntrinsicID() == Intrinsic::ctpop ? 0 : w);
            for (unsigned j = 0; j < w; j++) {
                if (f->getIntrinsicID() == Intrinsic::ctpop) r = bvAdd(r, bvZext(bvExtract(a[0].i, j, j), w));
                else if (f->getIntrinsicID() == Intrinsic::ctlz) r = bvIte(toBool(bvExtract(a[0].i, j, j)), Bv(w, w - 1 - j), r);
                else { unsigned k = w - 1 - j; r = bvIte(toBool(bvExtract(a[0].i, k, k)), Bv(w, k), r); }
            }
            retInt(r);
            return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = a[0].i.w;
            Bv r; expr ov = Z->bool_val(false);
            auto id = f->getIntrinsicID();
            if (id == Intrinsic::uadd_with_overflow) { r = bvAdd(a[0].i, a[1].i); ov = bvCmp(CMP::ULT, r, a[0].i); }
            else if (id == Intrinsic::usub_with_overflow) { r = bvSub(a[0].i, a[1].i); ov = bvCmp(CMP::ULT, a[0].i, a[1].i); }
            else {
                bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
                unsigned ww = mul ? 2 * w : w + 1;
                BO op = mul ? BO::Mul : (id == Intrinsic::sadd_with_overflow ? BO::Add : BO::Sub);
                if (a[0].i.c && a[1].i.c && w <= 32) {
                    Bv x = sg ? bvSext(a[0].i, 64) : bvZext(a[0].i, 64), y = sg ? bvSext(a[1].i, 64) : bvZext(a[1].i, 64);
                    Bv p = bvBin(op, x, y);
                    r = bvExtract(p, w - 1, 0);
                    ov = bvCmp(CMP::NE, sg ? bvSext(r, 64) : bvZext(r, 64), p);
                } else if (mul && sg && w <= 64 && (a[0].i.c || a[1].i.c) && (a[0].i.c ? a[0].i : a[1].i).v != 0 && !((a[0].i.c ? a[0].i : a[1].i).v >> (w - 1))) {
                    // positive constant factor: overflow iff outside [MIN/c, MAX/c]
                    const Bv& k = a[0].i.c ? a[0].i : a[1].i; const Bv& x = a[0].i.c ? a[1].i : a[0].i;
                    uint64_t mx = (1ull << (w - 1)) - 1;
                    int64_t mn = -(int64_t)mx - 1;
                    r = bvBin(op, a[0].i, a[1].i);
                    ov = bor(bvCmp(CMP::SLT, Bv(w, mx / k.v), x), bvCmp(CMP::SLT, x, Bv(w, (uint64_t)(mn / (int64_t)k.v))));
                } else if (mul && !sg && w <= 64 && (a[0].i.c || a[1].i.c) && (a[0].i.c ? a[0].i : a[1].i).v != 0) {
                    const Bv& k = a[0].i.c ? a[0].i : a[1].i; const Bv& x = a[0].i.c ? a[1].i : a[0].i;
                    uint64_t mx = w == 64 ? ~0ull : (1ull << w) - 1;
                    r = bvBin(op, a[0].i, a[1].i);
                    ov = bvCmp(CMP::ULT, Bv(w, mx / k.v), x);
                } else {
                    expr x = sg ? z3::sext(a[0].i.ex(), ww - w) : z3::zext(a[0].i.ex(), ww - w);
                    expr y = sg ? z3::sext(a[1].i.ex(), ww - w) : z3::zext(a[1].i.ex(), ww - w);
                    expr p = op == BO::Mul ? x * y : (op == BO::Add ? x + y : x - y);
                    r = bvBin(op, a[0].i, a[1].i);
                    expr re = sg ? z3::sext(r.ex(), ww - w) : z3::zext(r.ex(), ww - w);
                    ov = (p != re).simplify();
                }
            }
            Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
            v.agg->push_back(Val::mkInt(r));
            v.agg->push_back(Val::mkInt(fromBool(ov)));
            ret(v);
            return true;
        }
        case Intrinsic::ptrmask: throw Abort("ptrmask");
        case Intrinsic::type_test: case Intrinsic::public_type_test: retInt(Bv(1, 1)); return true;
        case Intrinsic::fabs: { unsigned w = a[0].i.w; retInt(bvBin(BO::And, a[0].i, Bv(w, w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull))); return true; }
        default: break;
        }
        throw Abort("intrinsic " + n.str());
    }
    if (startsWith(n, "vf_")) {
        auto str = [&](const Val& v) { return readCStr(s, v); };
        auto logNd = [&](int k, const std::string& nm, const Bv& v, int obj = 0, std::shared_ptr<z3::func_decl> uf = nullptr) {
            if (n.starts_with("vf_any")) return;
            NdEntry e; e.kind = k; e.name = nm; e.v = v; e.obj = obj; e.uf = uf;
            s.nd.push_back(e);
        };
        unsigned w = ci && ci->getType()->isIntegerTy() ? ci->getType()->getIntegerBitWidth() : 64;
        if (n == "vf_u8" || n == "vf_u16" || n == "vf_u32" || n == "vf_u64" || n == "vf_bool") {
            std::string nm = str(a[0]);
            Bv v = Bv::sym(freshBv(w, nm.c_str()));
            if (n == "vf_bool" && w > 1) v = bvZext(Bv::sym(freshBv(1, nm.c_str())), w);
            logNd(0, nm, v);
            retInt(v);
            return true;
        }
        if (n == "vf_range") {
            std::string nm = str(a[2]);
            Bv v;
            if (a[0].i.c && a[1].i.c && a[0].i.v == a[1].i.v) v = a[0].i;
            else {
                unsigned bits = 64; // narrow variable: no carries to reason about
                if (a[1].i.c) { bits = 1; while (bits < 64 && (a[1].i.v >> bits)) bits++; }
                Bv nv = Bv::sym(freshBv(bits, nm.c_str()));
                v = bits < 64 ? Bv::sym(z3::zext(nv.ex(), 64 - bits)) : nv;
                if (!(a[0].i.c && a[0].i.v == 0)) addPc(s, bvCmp(CMP::ULE, a[0].i, v));
                if (!(a[1].i.c && (bits >= 64 ? a[1].i.v == ~0ull : a[1].i.v == (1ull << bits) - 1))) addPc(s, bvCmp(CMP::ULE, v, a[1].i));
            }
            logNd(0, nm, v);
            retInt(v);
            return true;
        }
        if (n == "vf_any_u8" || n == "vf_any_u16" || n == "vf_any_u32" || n == "vf_any_u64") { retInt(Bv::sym(freshBv(w, "any"))); return true; }
        if (n == "vf_any_bool") { Bv b = Bv::sym(freshBv(1, "anyb")); retInt(w == 1 ? b : bvZext(b, w)); return true; }
        if (n == "vf_bytes" || n == "vf_any_bytes") {
            std::string nm = n == "vf_bytes" ? str(a[1]) : "anybytes";
            int o = newObj(s, OK::Heap, a[0].i, BaseK::Sym, nm);
            logNd(1, nm, a[0].i, o, s.objs[o]->ct->uf);
            ret(Val::mkPtr(o, Bv(64, 0)));
            return true;
        }
        if (n == "vf_havoc" || n == "vf_any_havoc") {
            std::string nm = n == "vf_havoc" ? str(a[2]) : "anyhav";
            int o = newObj(s, OK::Heap, a[1].i, BaseK::Sym, nm);
            logNd(1, nm, a[1].i, o, s.objs[o]->ct->uf);
            doMemcpy(s, a[0], Val::mkPtr(o, Bv(64, 0)), a[1].i);
            s.objs[o] = nullptr;
            return true;
        }
        if (n == "vf_assume") {
            expr c = a[0].i.w == 1 ? toBool(a[0].i) : bvCmp(CMP::NE, a[0].i, Bv(a[0].i.w, 0));
            if (c.is_true()) return true;
            if (c.is_false() || sat(s, c) == 0) throw PathEnd();
            addPc(s, c);
            return true;
        }
        if (n == "vf_assert") {
            expr c = a[0].i.w == 1 ? toBool(a[0].i) : bvCmp(CMP::NE, a[0].i, Bv(a[0].i.w, 0));
            oblige(s, c, "contract", str(a[1]));
            return true;
        }
        if (n == "vf_cover") { if (!quiet) { covers[str(a[0])]++; } return true; }
        if (n == "vf_mode") { retInt(Bv(w, 1)); return true; }
        if (n == "vf_unroll" || n == "vf_inv0" || n == "vf_inv1" || n == "vf_inv2" || n == "vf_class_inv" || n == "vf_stub" || n == "vf_measure") return true; // scanned beforehand
        if (n == "vf_unroll_now") { unrolls.push_back({ str(a[0]), (int)(int64_t)bvSext(a[1].i, 64).v }); return true; }
        if (n == "vf_bounded") { std::string t = str(a[0]); if (std::find(bounded.begin(), bounded.end(), t) == bounded.end()) bounded.push_back(t); return true; }
        if (n == "vf_noterm") { checkTermination = false; return true; }
        if (n == "vf_gf2") { useGf2 = true; return true; }
        if (n == "vf_objsize") { if (a[0].obj == 0 || !s.objs[a[0].obj]) retInt(Bv(64, 0)); else retInt(s.objs[a[0].obj]->size); return true; }
        if (n == "vf_offset") { retInt(a[0].obj ? a[0].i : Bv(64, 0)); return true; }
        if (n == "vf_live") { retInt(Bv(w, a[0].obj && s.objs[a[0].obj] ? 1 : 0)); return true; }
        if (n == "vf_sameobj") { retInt(Bv(w, a[0].obj && a[0].obj == a[1].obj)); return true; }
        if (n == "vf_copyeq") { // ghost: n bytes at p and q are the same for every index (checked at a skolem index)
            Bv k = Bv::sym(freshBv(64, "sk"));
            throw Abort("vf_copyeq");
        }
        if (n == "vf_case") { // concrete case split of a value within [lo,hi]
            Bv v = a[0].i;
            if (v.c) { retInt(v); return true; }
            for (uint64_t k = a[1].i.v; k <= a[2].i.v; k++) {
                expr e = bvCmp(CMP::EQ, v, Bv(v.w, k));
                int r = sat(s, e);
                if (r == 0) continue;
                bool more = sat(s, bnot(e)) != 0;
                if (more) {
                    StateP o = clone(s);
                    addPc(*o, bnot(e));
                    out.push_back(std::move(o));
                    forks++;
                }
                addPc(s, e);
                retInt(Bv(v.w, k));
                return true;
            }
            throw PathEnd();
        }
        if (n == "vf_pred") { // a predicate over the current state as one formula (no case split)
            Function* pf = a[0].obj && s.objs[a[0].obj] ? s.objs[a[0].obj]->fn : nullptr;
            if (!pf) throw Abort("vf_pred: not a function");
            expr e = evalPred(s, pf, {});
            retInt(Bv::sym(z3::ite(e, Z->bv_val(1, w), Z->bv_val(0, w))));
            return true;
        }
        if (n == "vf_fork") { // case split on a boolean
            expr c = a[0].i.w == 1 ? toBool(a[0].i) : bvCmp(CMP::NE, a[0].i, Bv(a[0].i.w, 0));
            bool t;
            forkVal(sp, c, out, t);
            retInt(Bv(w, t));
            return true;
        }
        if (!f->isDeclaration()) return false;
        throw Abort("unknown intrinsic " + n.str());
    }
    if (!f->isDeclaration() && !n.starts_with("_Zn") && !n.starts_with("_Zd")) return false;
    auto ext = [&]() { if (!quiet) externs[demangle(n.str())]++; };
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") {
        ext();
        int o = newObj(s, OK::Heap, a[0].i, BaseK::Uninit, "heap");
        s.objs[o]->align = 16;
        ret(Val::mkPtr(o, Bv(64, 0)));
        return true;
    }
    if (n == "calloc") {
        ext();
        Bv sz = bvBin(BO::Mul, a[0].i, a[1].i);
        int o = newObj(s, OK::Heap, sz, BaseK::Zero, "heap");
        ret(Val::mkPtr(o, Bv(64, 0)));
        return true;
    }
    if (n == "realloc") {
        ext();
        int o = newObj(s, OK::Heap, a[1].i, BaseK::Uninit, "heap");
        Val np = Val::mkPtr(o, Bv(64, 0));
        if (a[0].obj) {
            Obj* ob = s.objs[a[0].obj].get();
            if (!ob) fail(s, "use-after-free", "realloc");
            Bv m = bvIte(bvCmp(CMP::ULT, ob->size, a[1].i), ob->size, a[1].i);
            doMemcpy(s, np, Val::mkPtr(a[0].obj, Bv(64, 0)), m);
            freeObj(s, a[0], "realloc");
        }
        ret(np);
        return true;
    }
    if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
        ext();
        freeObj(s, a[0], "free");
        return true;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { doMemcpy(s, a[0], a[1], a[2].i); ret(a[0]); return true; }
    if (n == "memset" || n == "__memset_chk") { doMemset(s, a[0], bvExtract(a[1].i, 7, 0), a[2].i); ret(a[0]); return true; }
    if (n == "memcmp" || n == "bcmp" || n == "CRYPTO_memcmp") {
        ext();
        Bv len = a[2].i;
        access(s, a[0], len, false, "memcmp");
        access(s, a[1], len, false, "memcmp");
        if (len.c && len.v <= 128) {
            if (!len.v) { retInt(Bv(32, 0)); return true; }
            auto c0 = s.objs[a[0].obj]->ct, c1 = s.objs[a[1].obj]->ct;
            Bv r(32, 0);
            for (int j = (int)len.v - 1; j >= 0; j--) {
                Bv x = readByte(s, *c0, bvAdd(a[0].i, Bv(64, j))), y = readByte(s, *c1, bvAdd(a[1].i, Bv(64, j)));
                r = bvIte(bvCmp(CMP::EQ, x, y), r, bvIte(bvCmp(CMP::ULT, x, y), Bv(32, 0xffffffff), Bv(32, 1)));
            }
            retInt(r);
            return true;
        }
        if (!len.c && a[0].obj && a[1].obj && must(s, bvCmp(CMP::ULE, len, Bv(64, 40)))) { // small length: exact
            auto c0 = s.objs[a[0].obj]->ct, c1 = s.objs[a[1].obj]->ct;
            Bv r(32, 0);
            for (int j = 39; j >= 0; j--) {
                Bv x = readByte(s, *c0, bvAdd(a[0].i, Bv(64, j))), y = readByte(s, *c1, bvAdd(a[1].i, Bv(64, j)));
                Bv d = bvIte(bvCmp(CMP::EQ, x, y), r, bvIte(bvCmp(CMP::ULT, x, y), Bv(32, 0xffffffff), Bv(32, 1)));
                r = bvIte(bvCmp(CMP::ULT, Bv(64, j), len), d, Bv(32, 0));
            }
            retInt(r);
            return true;
        }
        Bv r = Bv::sym(freshBv(32, "memcmp"));
        if (a[0].obj && a[1].obj) { // unequal: some byte differs
            Bv k = Bv::sym(freshBv(64, "memcmpk"));
            Bv x = readByte(s, *s.objs[a[0].obj]->ct, bvAdd(a[0].i, k)), y = readByte(s, *s.objs[a[1].obj]->ct, bvAdd(a[1].i, k));
            addPc(s, bor(bvCmp(CMP::EQ, r, Bv(32, 0)), band(bvCmp(CMP::ULT, k, len), bvCmp(CMP::NE, x, y))));
        }
        if (!len.c) addPc(s, bor(bvCmp(CMP::NE, len, Bv(64, 0)), bvCmp(CMP::EQ, r, Bv(32, 0))));
        retInt(r);
        return true;
    }
    if (n == "strlen") {
        std::string t = readCStr(s, a[0]);
        retInt(Bv(64, t.size()));
        return true;
    }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "__cxa_throw" ||
        n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__cxa_throw_bad_array_new_length" || n.starts_with("_ZSt16__throw_") || n.starts_with("_ZSt17__throw_") || n.starts_with("_ZSt19__throw_") || n.starts_with("_ZSt20__throw_") || n.starts_with("_ZSt24__throw_") || n.starts_with("_ZSt25__throw_") || n.starts_with("_ZSt28__throw_") || (n.starts_with("_ZSt") && n.contains("__throw_"))) {
        fail(s, "abort", demangle(n.str()));
    }
    if (n == "__cxa_guard_acquire") {
        Val p = a[0];
        Val g = load(s, p, Type::getInt8Ty(M->getContext()));
        expr done = bvCmp(CMP::NE, g.i, Bv(8, 0));
        retInt(bvIte(done, Bv(32, 0), Bv(32, 1)));
        return true;
    }
    if (n == "__cxa_guard_release") { store(s, a[0], Val::mkInt(Bv(8, 1)), Type::getInt8Ty(M->getContext())); return true; }
    if (kZeroExterns.count(n.str())) {
        ext();
        if (ci && ci->getType()->isIntegerTy()) retInt(Bv(ci->getType()->getIntegerBitWidth(), 0));
        return true;
    }
    (void)cont;
    return false;
}

// ------------------------------------------------------------------ run one harness
void Engine::run(llvm::Function* f)
{
    auto s = std::make_unique<State>();
    s->objs.push_back(nullptr);
    gobj.clear();
    fobj.clear();
    for (auto& fn : *M) {
        if (fn.isIntrinsic()) continue;
        int o = newObj(*s, OK::Func, Bv(64, 1), BaseK::Zero, fn.getName().str());
        s->objs[o]->fn = &fn;
        fobj[&fn] = o;
    }
    std::vector<std::pair<int, const GlobalVariable*>> todo;
    for (auto& g : M->globals()) {
        Type* t = g.getValueType();
        uint64_t sz = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 8;
        int o = newObj(*s, OK::Global, Bv(64, sz), g.hasInitializer() ? BaseK::Const : BaseK::Sym, g.getName().str());
        s->objs[o]->ro = g.isConstant();
        s->objs[o]->align = g.getAlign() ? (int)g.getAlign()->value() : 1;
        gobj[&g] = o;
        if (g.hasInitializer()) todo.push_back({ o, &g });
    }
    for (auto& t : todo) {
        auto it = gbytes.find(t.second);
        std::vector<std::pair<uint64_t, const Constant*>> ptrs;
        uint64_t sz = s->objs[t.first]->size.v;
        bool first = it == gbytes.end();
        if (first) it = gbytes.emplace(t.second, std::vector<uint8_t>(sz)).first;
        std::vector<uint8_t> tmp(sz);
        try { initBytes(t.second->getInitializer(), tmp, 0, ptrs); } catch (Abort& e) { s->objs[t.first]->ct->base = BaseK::Sym; s->objs[t.first]->ct->uf = freshUf("g"); continue; }
        if (first) it->second = tmp;
        s->objs[t.first]->ct->cdata = &it->second;
        for (auto& p : ptrs) {
            Val v = constVal(*s, p.second);
            s->objs[t.first]->ct->cells[p.first] = Cell{ (unsigned)DL->getTypeAllocSize(p.second->getType()), v };
        }
    }
    bool cont = true;
    std::vector<StateP> outs, fin;
    callFn(s, f, {}, nullptr, outs, cont);
    std::vector<StateP> init;
    init.push_back(std::move(s));
    explore(std::move(init), 1, &fin);
}
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
void Engine::report(FILE* f)
{
    auto map2 = [&](const char* k, const std::map<std::string, uint64_t>& m, bool last = false) {
        fprintf(f, "  %s: {", jstr(k).c_str());
        bool c = false;
        for (auto& e : m) { fprintf(f, "%s%s: %llu", c ? ", " : "", jstr(e.first).c_str(), (unsigned long long)e.second); c = true; }
        fprintf(f, "}%s\n", last ? "" : ",");
    };
    fprintf(f, "{\n  \"harness\": %s,\n  \"undecided\": %s,\n", jstr(harness).c_str(), undecided.empty() ? "null" : jstr(undecided).c_str());
    fprintf(f, "  \"obligations\": [");
    bool c = false;
    for (auto& kv : obls) {
        auto& o = kv.second;
        fprintf(f, "%s\n    {\"kind\": %s, \"function\": %s, \"loc\": %s, \"label\": %s, \"vcs\": %llu, \"trivial\": %llu, \"smt\": %llu, \"status\": \"%s\", \"detail\": %s, \"replay\": %s}", c ? "," : "",
            jstr(o.kind).c_str(), jstr(o.fn).c_str(), jstr(o.loc).c_str(), jstr(o.label).c_str(), (unsigned long long)o.vcs, (unsigned long long)o.trivial, (unsigned long long)o.smt,
            o.status == 0 ? "discharged" : o.status == 1 ? "refuted" : "unknown", jstr(o.detail).c_str(), jstr(o.model).c_str());
        c = true;
    }
    fprintf(f, "],\n  \"loops\": [");
    c = false;
    for (auto& kv : loops) {
        auto& l = kv.second;
        if (!l.entries) continue;
        fprintf(f, "%s\n    {\"function\": %s, \"loc\": %s, \"entries\": %llu, \"candidates\": %llu, \"invariants\": %llu, \"preservation_vcs\": %llu, \"measure\": %s, \"termination_unproved\": %d}", c ? "," : "",
            jstr(l.fn).c_str(), jstr(l.loc).c_str(), (unsigned long long)l.entries, (unsigned long long)l.cands, (unsigned long long)l.kept, (unsigned long long)l.backVcs, jstr(l.measure).c_str(), l.termFail);
        c = true;
    }
    fprintf(f, "],\n  \"unrolled_loops\": [");
    c = false;
    for (auto& u : unrolledLoops) { fprintf(f, "%s%s", c ? ", " : "", jstr(u).c_str()); c = true; }
    fprintf(f, "],\n  \"bounded\": [");
    c = false;
    for (auto& u : bounded) { fprintf(f, "%s%s", c ? ", " : "", jstr(u).c_str()); c = true; }
    fprintf(f, "],\n  \"user_invariants_used\": [");
    c = false;
    for (auto& u : invNames) { fprintf(f, "%s%s", c ? ", " : "", jstr(u.first).c_str()); c = true; }
    fprintf(f, "],\n");
    map2("functions", funcsExec);
    map2("stubs", funcsStub);
    map2("externals", externs);
    map2("covers", covers);
    map2("cover_sites", coverSeen);
    fprintf(f, "  \"stats\": {\"steps\": %llu, \"paths\": %llu, \"forks\": %llu, \"queries\": %llu, \"solver_calls\": %llu, \"cache_hits\": %llu, \"solver_ms\": %.0f, \"unknown\": %llu}\n}\n", (unsigned long long)steps, (unsigned long long)paths,
        (unsigned long long)forks, (unsigned long long)queries, (unsigned long long)solverCalls, (unsigned long long)cacheHits, solverMs, (unsigned long long)unknowns);
}

int main(int argc, char** argv)
{
    // deep recursion in z3 / here
    struct rlimit rl;
    if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ull << 20) && !getenv("VCX_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ull << 20) : rl.rlim_max;
        if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("VCX_STACK", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::vector<std::string> files;
    std::string outp, hname, repo = "/repo", dumpLL;
    double tmo = 600;
    bool verbose = false, list = false;
    unsigned qt = 20000;
    int bmc = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-o") outp = argv[++i];
        else if (a == "-H") hname = argv[++i];
        else if (a == "-t") tmo = atof(argv[++i]);
        else if (a == "-q") qt = atoi(argv[++i]);
        else if (a == "-v") verbose = true;
        else if (a == "-r") repo = argv[++i];
        else if (a == "-S") dumpLL = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "-B") bmc = atoi(argv[++i]);
        else files.push_back(a);
    }
    double start = nowS();
    Z = new z3::context();
    LLVMContext C;
    std::unique_ptr<Module> M;
    for (auto& f : files) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, C);
        if (!m) { err.print("vcx", errs()); return 3; }
        if (!M) { M = std::move(m); continue; }
        if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << f << "\n"; return 3; }
    }
    Engine E;
    E.M = M.get();
    E.DL = &M->getDataLayout();
    E.repoDir = repo;
    E.verbose = verbose;
    E.bmc = bmc;
    if (list) {
        for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("vfh_")) outs() << f.getName().substr(4) << "\n";
        return 0;
    }
    llvm::Function* H = M->getFunction("vfh_" + hname);
    if (!H || H->isDeclaration()) { errs() << "no harness " << hname << "\n"; return 3; }
    // scan configuration calls of this harness
    std::set<llvm::Function*> keep{ H };
    auto cstr = [&](Value* v) -> std::string {
        if (auto* g = dyn_cast<GlobalVariable>(v->stripPointerCasts()))
            if (g->hasInitializer())
                if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) return cd->isCString() ? cd->getAsCString().str() : "";
        return "";
    };
    auto fnOf = [&](Value* v) { return dyn_cast<llvm::Function>(v->stripPointerCasts()); };
    {
        std::vector<llvm::Function*> todo{ H };
        std::set<llvm::Function*> seen{ H };
        while (!todo.empty()) {
            auto* f = todo.back();
            todo.pop_back();
            for (auto& bb : *f) for (auto& I : bb) {
                auto* ci = dyn_cast<CallInst>(&I);
                if (!ci || !ci->getCalledFunction()) continue;
                auto n = ci->getCalledFunction()->getName();
                if (n == "vf_unroll") E.unrolls.push_back({ cstr(ci->getArgOperand(0)), (int)cast<ConstantInt>(ci->getArgOperand(1))->getSExtValue() });
                else if (n == "vf_inv0") E.inv[0].push_back(fnOf(ci->getArgOperand(0)));
                else if (n == "vf_measure") E.measures.push_back(fnOf(ci->getArgOperand(0)));
                else if (n == "vf_inv1") E.inv[1].push_back(fnOf(ci->getArgOperand(0)));
                else if (n == "vf_inv2") E.inv[2].push_back(fnOf(ci->getArgOperand(0)));
                else if (n == "vf_class_inv") E.classInv.push_back({ cstr(ci->getArgOperand(0)), fnOf(ci->getArgOperand(1)) });
                else if (n == "vf_stub") E.stubs.push_back({ cstr(ci->getArgOperand(0)), fnOf(ci->getArgOperand(1)) });
                else if (n.starts_with("vfc_") && seen.insert(ci->getCalledFunction()).second) todo.push_back(ci->getCalledFunction());
                else continue;
            }
        }
    }
    for (auto& u : E.unrolls) if (u.first == "loop-locals") E.loopLocals = true;
    // covers in the harness file
    for (auto& f : *M) {
        // prune: internal linkage for everything but the harness lets DCE shrink the module
        if (f.isDeclaration()) continue;
        if (&f != H) { f.setLinkage(GlobalValue::InternalLinkage); f.setComdat(nullptr); }
    }
    for (auto& g : M->globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) { g.setLinkage(GlobalValue::InternalLinkage); g.setComdat(nullptr); }
    for (auto& a : M->aliases()) a.setLinkage(GlobalValue::InternalLinkage);
    for (auto* un : { "llvm.used", "llvm.compiler.used" }) if (auto* g = M->getGlobalVariable(un)) g->eraseFromParent();
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) g->eraseFromParent();
    if (auto* g = M->getGlobalVariable("llvm.global_dtors")) g->eraseFromParent();
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(GlobalDCEPass());
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(false));
        FPM.addPass(SimplifyCFGPass());
        FPM.addPass(LoopSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    for (auto& f : *M)
        for (auto& bb : f) for (auto& I : bb)
            if (auto* ci = dyn_cast<CallInst>(&I))
                if (ci->getCalledFunction() && ci->getCalledFunction()->getName() == "vf_cover") { std::string t = cstr(ci->getArgOperand(0)); if (!t.empty()) E.coverSeen[t]++; }
    if (!dumpLL.empty()) { std::error_code ec; raw_fd_ostream o(dumpLL, ec); M->print(o, nullptr); }
    E.harness = hname;
    E.deadline = start + tmo;
    E.queryTimeoutMs = qt;
    E.traceOn = getenv("VCX_TRACE") != nullptr;
    E.histOff = getenv("VCX_NOHIST") != nullptr;
    int restarts = 0;
    while (true) {
        try {
            E.run(H);
            bool bad = false;
            for (auto& kv : E.obls) if (kv.second.status) bad = true;
            if (bad && E.histUsed && !E.histOff) { E.histOff = true; throw Restart(); }
            break;
        } catch (Restart&) {
            if (++restarts > 200) { E.undecided = "too many restarts"; break; }
            E.quiet = 0; E.ctx.clear(); E.wlogs.clear(); E.tlogs.clear(); E.curBase = 0;
            E.obls.clear(); E.covers.clear(); E.loops.clear(); E.funcsExec.clear(); E.funcsStub.clear(); E.externs.clear();
            E.unrolledLoops.clear(); E.invNames.clear();
            continue;
        } catch (Abort& e) {
            E.undecided = e.msg;
            break;
        } catch (z3::exception& e) {
            E.undecided = std::string("z3: ") + e.msg();
            break;
        }
    }
    if (E.bmcPruned && E.undecided.empty()) E.undecided = "bounded search";
    if (getenv("VCX_PROF")) {
        std::vector<std::pair<double, std::string>> v;
        for (auto& kv : E.prof) v.push_back({ kv.second.first, kv.first + " x" + std::to_string(kv.second.second) });
        std::sort(v.rbegin(), v.rend());
        for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "PROF %7.2fs %s\n", v[i].first, v[i].second.c_str());
        fprintf(stderr, "lin %llu hits %llu %.1f s\n", (unsigned long long)E.linCalls, (unsigned long long)E.linHits, E.linMs / 1000);
        fprintf(stderr, "inc %llu hits %llu\n", (unsigned long long)E.incCalls, (unsigned long long)E.incHits);
    }
    FILE* o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    if (!o) { perror("vcx"); return 3; }
    E.report(o);
    if (o != stdout) fclose(o);
    int st = 0;
    for (auto& kv : E.obls) { if (kv.second.status == 1) st = 1; else if (kv.second.status == 2 && !st) st = 2; }
    if (!E.undecided.empty() && st != 1) st = 2;
    fflush(nullptr);
    _exit(st); // 0 discharged, 1 refuted, 2 undecided
}
