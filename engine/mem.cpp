#include "engine.h"
#include "llvm/Support/raw_ostream.h"

static std::unordered_map<unsigned, uint64_t> gBirth;
uint64_t birthOf(unsigned declId) { auto i = gBirth.find(declId); return i == gBirth.end() ? 0 : i->second; }

expr Engine::freshBv(unsigned w, const char* n)
{
    uint64_t id = ++freshId;
    expr e = Z->bv_const((std::string(n) + "!" + std::to_string(id)).c_str(), w);
    keepAlive.push_back(e);
    gBirth[Z3_get_ast_id(*Z, e.decl())] = id;
    return e;
}
std::shared_ptr<z3::func_decl> Engine::freshUf(const char* n)
{
    uint64_t id = ++freshId;
    auto d = std::make_shared<z3::func_decl>(
        Z->function((std::string(n) + "!" + std::to_string(id)).c_str(), Z->bv_sort(64), Z->bv_sort(8)));
    static std::vector<std::shared_ptr<z3::func_decl>> keep;
    keep.push_back(d);
    gBirth[Z3_get_ast_id(*Z, *d)] = id;
    return d;
}

int Engine::newObj(State& s, OK k, const Bv& size, BaseK base, const std::string& name)
{
    if (s.objs.empty()) s.objs.push_back(nullptr);
    auto o = std::make_shared<Obj>();
    o->id = (int)s.objs.size();
    o->kind = k;
    o->size = size;
    o->name = name;
    o->ct = std::make_shared<Content>();
    o->ct->base = base;
    if (base == BaseK::Uninit || base == BaseK::Sym) o->ct->uf = freshUf(name.empty() ? "m" : name.c_str());
    s.objs.push_back(o);
    return o->id;
}
Obj& Engine::objW(State& s, int id)
{
    auto& p = s.objs[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
Content& Engine::ctW(State& s, int id)
{
    Obj& o = objW(s, id);
    if (o.ct.use_count() > 1) o.ct = std::make_shared<Content>(*o.ct);
    return *o.ct;
}
Bv Engine::addrOf(State& s, int obj)
{
    static std::map<int, Bv> memo;
    if (obj == 0) return Bv(64, 0);
    auto it = memo.find(obj);
    if (it == memo.end()) {
        expr e = Z->bv_const(("addr!" + std::to_string(obj)).c_str(), 64);
        it = memo.emplace(obj, Bv::sym(e)).first;
    }
    expr a = it->second.ex();
    Obj* o = s.objs[obj].get();
    if (o) {
        // constrain once per state: cheap to repeat (dedup by ast equality at head not needed)
        static std::map<int, std::shared_ptr<expr>> cons;
        auto ci = cons.find(obj);
        if (ci == cons.end()) {
            expr c = z3::uge(a, Z->bv_val((uint64_t)4096, 64)) && z3::ule(a, Z->bv_val((uint64_t)1 << 46, 64));
            if (o->align > 1) c = c && ((a & Z->bv_val((uint64_t)o->align - 1, 64)) == Z->bv_val(0, 64));
            ci = cons.emplace(obj, std::make_shared<expr>(c)).first;
        }
        bool have = false;
        for (auto* p = s.pc.get(); p; p = p->next.get())
            if (z3::eq(p->e, *ci->second)) { have = true; break; }
        if (!have) s.pc = std::make_shared<PcNode>(*ci->second, s.pc);
    }
    return it->second;
}
Bv Engine::toInt(State& s, const Val& v)
{
    if (v.k == VK::Int) return v.i;
    if (v.k == VK::Ptr) {
        if (v.obj == 0) return v.i;
        return bvAdd(addrOf(s, v.obj), v.i);
    }
    throw Abort("toInt on aggregate");
}
static Bv extractByte(const Bv& v, unsigned j)
{
    unsigned lo = j * 8, hi = lo + 7;
    if (hi >= v.w) { // odd width ints
        Bv z = bvZext(v, ((v.w + 7) / 8) * 8);
        return bvExtract(z, hi, lo);
    }
    return bvExtract(v, hi, lo);
}
void Engine::flushCells(Content& c)
{
    for (auto& kv : c.cells) {
        auto n = std::make_shared<Node>();
        n->k = NK::Store;
        n->off = Bv(64, kv.first);
        n->size = kv.second.size;
        n->val = kv.second.val;
        n->next = c.top;
        c.top = n;
    }
    c.cells.clear();
}
void Engine::logWrite(State& s, int obj, const Bv& off, unsigned size, bool freed, bool isPtr)
{
    if (wlogs.empty()) return;
    WriteRec r{ obj, off.c, off.c ? off.v : 0, size, freed, isPtr };
    for (auto* w : wlogs) w->push_back(r);
}
void Engine::writeCell(State& s, int obj, const Bv& off, unsigned size, const Val& v)
{
    logWrite(s, obj, off, size, false, v.k == VK::Ptr);
    Content& c = ctW(s, obj);
    if (off.c) {
        uint64_t o = off.v;
        // remove overlapping
        auto it = c.cells.upper_bound(o);
        if (it != c.cells.begin()) {
            --it;
            if (it->first + it->second.size <= o) ++it;
        }
        std::vector<std::pair<uint64_t, Cell>> re;
        while (it != c.cells.end() && it->first < o + size) {
            uint64_t co = it->first;
            Cell cl = it->second;
            if (!(co >= o && co + cl.size <= o + size)) {
                Bv iv = toInt(s, cl.val);
                for (unsigned j = 0; j < cl.size; j++) {
                    if (co + j < o || co + j >= o + size) re.push_back({ co + j, Cell{ 1, Val::mkInt(extractByte(iv, j)) } });
                }
            }
            it = c.cells.erase(it);
        }
        for (auto& r : re) c.cells[r.first] = r.second;
        c.cells[o] = Cell{ size, v };
    } else {
        flushCells(c);
        auto n = std::make_shared<Node>();
        n->k = NK::Store;
        n->off = off;
        n->size = size;
        n->val = v;
        n->next = c.top;
        c.top = n;
    }
}
static Bv selUf(const Content& ct, const Bv& off)
{
    return Bv::sym((*ct.uf)(off.ex()));
}
Bv Engine::readBase(State& s, const Content& ct, const Bv& off)
{
    switch (ct.base) {
    case BaseK::Zero: return Bv(8, 0);
    case BaseK::Uninit:
    case BaseK::Sym: return selUf(ct, off);
    case BaseK::Const: {
        const auto& d = *ct.cdata;
        if (off.c) return Bv(8, off.v < d.size() ? d[off.v] : 0);
        if (d.size() > 8192) throw Abort("large const table read");
        unsigned bits = 0;
        while ((1ull << bits) < d.size()) bits++;
        std::function<Bv(unsigned, uint64_t)> mux = [&](unsigned b, uint64_t base) -> Bv {
            if (base >= d.size()) return Bv(8, 0);
            if (b == 0) return Bv(8, d[base]);
            Bv lo = mux(b - 1, base), hi = mux(b - 1, base + (1ull << (b - 1)));
            return bvIte(toBool(bvExtract(off, b - 1, b - 1)), hi, lo);
        };
        return mux(bits, 0);
    }
    }
    abort();
}
Bv Engine::readNode(State& s, const Content& ct, const Node* n, const Bv& off)
{
    struct Pend { expr c; Bv v; };
    std::vector<Pend> pend;
    Bv res;
    while (true) {
        if (!n) { res = readBase(s, ct, off); break; }
        Bv d = bvSub(off, n->off);
        if (n->k == NK::Store) {
            if (d.c) {
                if (d.v < n->size) { res = extractByte(toInt(s, n->val), (unsigned)d.v); break; }
            } else {
                expr in = n->size == 1 ? bvCmp(CMP::EQ, d, Bv(64, 0)) : bvCmp(CMP::ULT, d, Bv(64, n->size));
                int kn = decide(s, in);
                if (kn == 0) { n = n->next.get(); continue; }
                if (kn == 1) in = Z->bool_val(true);
                Bv v;
                Bv iv = toInt(s, n->val);
                if (n->size == 1) v = extractByte(iv, 0);
                else {
                    v = extractByte(iv, n->size - 1);
                    for (int j = (int)n->size - 2; j >= 0; j--) v = bvIte(bvCmp(CMP::EQ, d, Bv(64, j)), extractByte(iv, j), v);
                }
                if (in.is_true()) { res = v; break; }
                pend.push_back({ in, v });
            }
        } else {
            expr in = bvCmp(CMP::ULT, d, n->n);
            int kn = decide(s, in);
            if (kn == 0) in = Z->bool_val(false);
            else if (kn == 1) in = Z->bool_val(true);
            if (!in.is_false()) {
                Bv v = n->k == NK::Fill ? n->val.i : readByte(s, *n->src, bvAdd(d, n->soff));
                if (in.is_true()) { res = v; break; }
                pend.push_back({ in, v });
            }
        }
        n = n->next.get();
    }
    for (int i = (int)pend.size() - 1; i >= 0; i--) res = bvIte(pend[i].c, pend[i].v, res);
    return res;
}
Bv Engine::readByte(State& s, const Content& ct, const Bv& off)
{
    if (off.c) {
        auto it = ct.cells.upper_bound(off.v);
        if (it != ct.cells.begin()) {
            --it;
            if (off.v < it->first + it->second.size) return extractByte(toInt(s, it->second.val), (unsigned)(off.v - it->first));
        }
        return readNode(s, ct, ct.top.get(), off);
    }
    Bv res = readNode(s, ct, ct.top.get(), off);
    for (auto it = ct.cells.begin(); it != ct.cells.end(); ++it) {
        Bv iv = toInt(s, it->second.val);
        for (unsigned j = 0; j < it->second.size; j++) {
            expr c = bvCmp(CMP::EQ, off, Bv(64, it->first + j));
            if (c.is_false() || known(s, c) == 0) continue;
            res = bvIte(c, extractByte(iv, j), res);
        }
    }
    return res;
}
// try to find a whole value stored by one write
bool Engine::findExact(State& s, const Content& ct, const Bv& off, unsigned size, Val& out)
{
    if (off.c) {
        auto it = ct.cells.upper_bound(off.v);
        if (it != ct.cells.begin()) {
            auto p = std::prev(it);
            if (p->first == off.v && p->second.size == size) { out = p->second.val; return true; }
            if (off.v < p->first + p->second.size) return false;
        }
        if (it != ct.cells.end() && it->first < off.v + size) return false;
    } else if (!ct.cells.empty()) {
        // symbolic offset: decide against each cell with the solver when few
        if (ct.cells.size() > 64) return false;
        for (auto& kv : ct.cells) {
            expr eq = bvCmp(CMP::EQ, off, Bv(64, kv.first));
            if (kv.second.size == size && must(s, eq)) { out = kv.second.val; return true; }
            Bv d1 = bvSub(off, Bv(64, kv.first)), d2 = bvSub(Bv(64, kv.first), off);
            expr disj = bvCmp(CMP::ULE, Bv(64, kv.second.size), d1);
            disj = band(disj, bvCmp(CMP::ULE, Bv(64, size), d2));
            if (!must(s, disj)) return false;
        }
    }
    for (const Node* n = ct.top.get(); n; n = n->next.get()) {
        Bv d = bvSub(off, n->off);
        if (n->k == NK::Store) {
            if (d.c) {
                if (d.v == 0 && n->size == size) { out = n->val; return true; }
                uint64_t dn = 0 - d.v;
                if (d.v >= n->size && dn >= size) continue;
                return false;
            }
            if (n->size == size && must(s, bvCmp(CMP::EQ, d, Bv(64, 0)))) { out = n->val; return true; }
            expr disj = band(bvCmp(CMP::ULE, Bv(64, n->size), d), bvCmp(CMP::ULE, Bv(64, size), bvSub(n->off, off)));
            if (must(s, disj)) continue;
            return false;
        }
        // Copy / Fill: inside?
        expr inside = band(bvCmp(CMP::ULE, Bv(64, size), n->n), bvCmp(CMP::ULE, d, bvSub(n->n, Bv(64, size))));
        if (inside.is_true() || must(s, inside)) {
            if (n->k == NK::Fill) {
                if (!n->val.i.c || size > 8) return false;
                uint64_t x = 0;
                for (unsigned j = 0; j < size; j++) x |= n->val.i.v << (8 * j);
                out = Val::mkInt(Bv(size * 8, x));
                return true;
            }
            return findExact(s, *n->src, bvAdd(d, n->soff), size, out);
        }
        expr disj = band(bvCmp(CMP::ULE, n->n, d), bvCmp(CMP::ULE, Bv(64, size), bvSub(n->off, off)));
        // zero-length copies are disjoint from everything
        disj = bor(disj, bvCmp(CMP::EQ, n->n, Bv(64, 0)));
        if (disj.is_true() || must(s, disj)) continue;
        return false;
    }
    if (ct.base == BaseK::Zero && size <= 8) { out = Val::mkInt(Bv(size * 8, 0)); return true; }
    return false;
}
Bv Engine::readInt(State& s, const Content& ct, const Bv& off, unsigned bytes)
{
    if (ct.base == BaseK::Const && ct.cells.empty() && !ct.top && !off.c && bytes > 1 && bytes <= 8 && !(bytes & (bytes - 1))) {
        const auto& d = *ct.cdata;
        uint64_t N = d.size() / bytes;
        Bv low = bvExtract(off, __builtin_ctz(bytes) - 1, 0);
        if (N <= 4096 && (low.c ? low.v == 0 : must(s, bvCmp(CMP::EQ, low, Bv(low.w, 0))))) {
            unsigned bits = 0;
            while ((1ull << bits) < N) bits++;
            unsigned sh = __builtin_ctz(bytes);
            auto entry = [&](uint64_t i) { uint64_t x = 0; for (unsigned j = 0; j < bytes; j++) x |= (uint64_t)d[i * bytes + j] << (8 * j); return x; };
            if (useGf2 && N == 1ull << bits && N > 1) { // a table that is linear over GF(2): the xor of the entries of the index bits
                bool lin = entry(0) == 0;
                for (uint64_t i = 1; i < N && lin; i++) lin = entry(i) == (entry(i & (i - 1)) ^ entry(i & -i));
                if (lin) {
                    Bv r(bytes * 8, 0);
                    for (unsigned b = 0; b < bits; b++) r = bvBin(BO::Xor, r, bvIte(toBool(bvExtract(off, b + sh, b + sh)), Bv(bytes * 8, entry(1ull << b)), Bv(bytes * 8, 0)));
                    return r;
                }
            }
            std::function<Bv(unsigned, uint64_t)> mux = [&](unsigned b, uint64_t base) -> Bv {
                if (base >= N) return Bv(bytes * 8, 0);
                if (b == 0) {
                    uint64_t x = 0;
                    for (unsigned j = 0; j < bytes; j++) x |= (uint64_t)d[base * bytes + j] << (8 * j);
                    return Bv(bytes * 8, x);
                }
                Bv lo = mux(b - 1, base), hi = mux(b - 1, base + (1ull << (b - 1)));
                return bvIte(toBool(bvExtract(off, b - 1 + sh, b - 1 + sh)), hi, lo);
            };
            return mux(bits, 0);
        }
    }
    Bv r = readByte(s, ct, off);
    for (unsigned j = 1; j < bytes; j++) r = bvConcat(readByte(s, ct, bvAdd(off, Bv(64, j))), r);
    if (!r.c && bytes > 1) r = Bv::sym(r.ex().simplify());
    return r;
}
bool Engine::access(State& s, const Val& p, const Bv& n, bool write, const char* what)
{
    if (p.k != VK::Ptr) throw Abort("access: not a pointer");
    if (n.c && n.v == 0) return true;
    if (p.obj == 0) {
        if (!n.c) { oblige(s, bvCmp(CMP::EQ, n, Bv(64, 0)), p.i.c ? "null-deref" : "unknown-pointer", what); return false; }
        fail(s, p.i.c ? "null-deref" : "unknown-pointer", what);
    }
    Obj* o = s.objs[p.obj].get();
    if (!o) {
        if (!n.c) { oblige(s, bvCmp(CMP::EQ, n, Bv(64, 0)), "use-after-free", what); return false; }
        fail(s, "use-after-free", what);
    }
    if (o->kind == OK::Func) fail(s, "bad-access", what);
    if (write && o->ro) fail(s, "write-to-const", what);
    expr c = band(bvCmp(CMP::ULE, p.i, o->size), bvCmp(CMP::ULE, n, bvSub(o->size, p.i)));
    if (!n.c && !c.is_true()) c = bor(c, bvCmp(CMP::EQ, n, Bv(64, 0)));
    if (!tlogs.empty() && !o->size.c) for (auto* t : tlogs) t->push_back(o->size.ex());
    oblige(s, c, write ? "bounds-write" : "bounds-read", what);
    return true;
}
Val Engine::bytesToVal(State& s, const Bv& b, Type* ty)
{
    if (ty->isPointerTy()) return Val::mkPtr(0, b);
    return Val::mkInt(b);
}
Val Engine::load(State& s, const Val& p, Type* ty)
{
    if (auto* st = dyn_cast<StructType>(ty)) {
        Val r; r.k = VK::Agg; r.agg = std::make_shared<std::vector<Val>>();
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            r.agg->push_back(load(s, Val::mkPtr(p.obj, bvAdd(p.i, Bv(64, sl->getElementOffset(i)))), st->getElementType(i)));
        return r;
    }
    if (auto* at = dyn_cast<ArrayType>(ty)) {
        Val r; r.k = VK::Agg; r.agg = std::make_shared<std::vector<Val>>();
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++)
            r.agg->push_back(load(s, Val::mkPtr(p.obj, bvAdd(p.i, Bv(64, es * i))), at->getElementType()));
        return r;
    }
    if (ty->isVectorTy()) throw Abort("vector load");
    unsigned bits = (unsigned)DL->getTypeSizeInBits(ty).getFixedValue();
    unsigned bytes = (bits + 7) / 8;
    access(s, p, Bv(64, bytes), false, "load");
    const auto ct = s.objs[p.obj]->ct;
    Val v;
    if (findExact(s, *ct, p.i, bytes, v)) {
        if (ty->isPointerTy()) {
            if (v.k == VK::Ptr) return v;
            if (v.obj) return Val::mkPtr(v.obj, v.poff);
            return Val::mkPtr(0, v.i.w == 64 ? v.i : bvZext(v.i, 64));
        }
        if (v.k == VK::Ptr) {
            Val r = Val::mkInt(toInt(s, v));
            r.obj = v.obj;
            r.poff = v.i;
            if (bits != 64) return Val::mkInt(bvExtract(r.i, bits - 1, 0));
            return r;
        }
        if (v.i.w == bits) return v;
        if (v.i.w > bits) return Val::mkInt(bvExtract(v.i, bits - 1, 0));
        return Val::mkInt(bvZext(v.i, bits));
    }
    if (ty->isPointerTy() && s.objs[p.obj]->havocPtr) throw Abort("pointer read from memory abstracted by a loop cut");
    Bv r = readInt(s, *ct, p.i, bytes);
    if (r.w > bits) r = bvExtract(r, bits - 1, 0);
    return bytesToVal(s, r, ty);
}
void Engine::store(State& s, const Val& p, const Val& v, Type* ty)
{
    if (auto* st = dyn_cast<StructType>(ty)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            store(s, Val::mkPtr(p.obj, bvAdd(p.i, Bv(64, sl->getElementOffset(i)))), (*v.agg)[i], st->getElementType(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(ty)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++)
            store(s, Val::mkPtr(p.obj, bvAdd(p.i, Bv(64, es * i))), (*v.agg)[i], at->getElementType());
        return;
    }
    if (ty->isVectorTy()) throw Abort("vector store");
    unsigned bits = (unsigned)DL->getTypeSizeInBits(ty).getFixedValue();
    unsigned bytes = (bits + 7) / 8;
    access(s, p, Bv(64, bytes), true, "store");
    Val w = v;
    if (w.k == VK::Int && w.i.w != bytes * 8) w = Val::mkInt(bvZext(w.i, bytes * 8));
    writeCell(s, p.obj, p.i, bytes, w);
}
void Engine::doMemset(State& s, const Val& d, const Bv& c, const Bv& n)
{
    if (n.c && n.v == 0) return;
    access(s, d, n, true, "memset");
    if (d.obj == 0 || !s.objs[d.obj]) return;
    if (n.c && d.i.c && n.v <= 256) {
        uint64_t o = d.i.v, left = n.v;
        while (left) {
            unsigned k = left >= 8 && (o % 8) == 0 ? 8 : (left >= 4 && (o % 4) == 0 ? 4 : 1);
            Bv v = c;
            for (unsigned j = 1; j < k; j++) v = bvConcat(v, c);
            writeCell(s, d.obj, Bv(64, o), k, Val::mkInt(v));
            o += k; left -= k;
        }
        return;
    }
    logWrite(s, d.obj, Bv::sym(Z->bv_const("any", 64)), 1);
    Content& ct = ctW(s, d.obj);
    bool whole = d.i.c && d.i.v == 0 && bvCmp(CMP::EQ, n, s.objs[d.obj]->size).is_true();
    if (whole) { ct.cells.clear(); ct.top = nullptr; }
    else flushCells(ct);
    auto nd = std::make_shared<Node>();
    nd->k = NK::Fill; nd->off = d.i; nd->n = n; nd->val = Val::mkInt(c); nd->next = ct.top;
    ct.top = nd;
}
void Engine::doMemcpy(State& s, const Val& d, const Val& sp, const Bv& n)
{
    if (n.c && n.v == 0) return;
    access(s, sp, n, false, "memcpy src");
    access(s, d, n, true, "memcpy dst");
    if (d.obj == 0 || sp.obj == 0 || !s.objs[d.obj] || !s.objs[sp.obj]) return; // n == 0 assumed
    std::shared_ptr<const Content> src = s.objs[sp.obj]->ct;
    if (n.c && n.v <= 1024 && sp.i.c && d.i.c) {
        // gather pieces
        struct P { uint64_t o; unsigned size; Val v; };
        std::vector<P> ps;
        uint64_t o = sp.i.v, end = o + n.v;
        bool ok = true;
        size_t gapBytes = 0;
        while (o < end && ok) {
            auto it = src->cells.upper_bound(o);
            uint64_t next = it == src->cells.end() ? end : std::min(end, it->first);
            if (it != src->cells.begin()) {
                auto p = std::prev(it);
                if (o < p->first + p->second.size) {
                    uint64_t pe = p->first + p->second.size;
                    if (o == p->first && pe <= end) { ps.push_back({ o, p->second.size, p->second.val }); o = pe; continue; }
                    // partial: bytes
                    uint64_t e2 = std::min(pe, end);
                    for (; o < e2; o++) ps.push_back({ o, 1, Val::mkInt(readByte(s, *src, Bv(64, o))) });
                    continue;
                }
            }
            gapBytes += next - o;
            if (gapBytes > 64 && !(src->base == BaseK::Zero && !src->top) && !(src->base == BaseK::Const && !src->top)) { ok = false; break; }
            while (o < next) {
                unsigned k = (next - o) >= 8 ? 8 : ((next - o) >= 4 ? 4 : ((next - o) >= 2 ? 2 : 1));
                Val v;
                if (!findExact(s, *src, Bv(64, o), k, v)) v = Val::mkInt(readInt(s, *src, Bv(64, o), k));
                ps.push_back({ o, k, v });
                o += k;
            }
        }
        if (ok) {
            for (auto& p : ps) writeCell(s, d.obj, Bv(64, d.i.v + (p.o - sp.i.v)), p.size, p.v);
            return;
        }
    }
    if (n.c && n.v <= 16) {
        // symbolic offset, small constant size: single value
        Val v;
        if (n.v > 8 || !findExact(s, *src, sp.i, (unsigned)n.v, v)) {
            Bv r = readByte(s, *src, sp.i);
            for (unsigned j = 1; j < n.v; j++) r = bvConcat(readByte(s, *src, bvAdd(sp.i, Bv(64, j))), r);
            if (!r.c) r = Bv::sym(r.ex().simplify());
            v = Val::mkInt(r);
        }
        writeCell(s, d.obj, d.i, (unsigned)n.v, v);
        return;
    }
    logWrite(s, d.obj, Bv::sym(Z->bv_const("any", 64)), 1);
    Content& ct = ctW(s, d.obj);
    bool whole = d.i.c && d.i.v == 0 && bvCmp(CMP::EQ, n, s.objs[d.obj]->size).is_true();
    if (whole) { ct.cells.clear(); ct.top = nullptr; }
    else flushCells(ct);
    auto nd = std::make_shared<Node>();
    nd->k = NK::Copy; nd->off = d.i; nd->n = n; nd->src = src; nd->soff = sp.i; nd->next = ct.top;
    ct.top = nd;
}
void Engine::freeObj(State& s, const Val& p, const char* what)
{
    if (p.obj == 0) {
        if (p.i.c && p.i.v == 0) return;
        fail(s, "bad-free", what);
    }
    Obj* o = s.objs[p.obj].get();
    if (!o) fail(s, "double-free", what);
    if (o->kind != OK::Heap) fail(s, "bad-free", what);
    oblige(s, bvCmp(CMP::EQ, p.i, Bv(64, 0)), "bad-free", what);
    logWrite(s, p.obj, Bv(64, 0), 0, true);
    s.objs[p.obj] = nullptr;
}
