// Packetizers of H.264 (RFC 6184) / H.265 (RFC 7798): frames of any number of NAL units of any size, any padding, any header
// extension per packet.  Included by packetize_h264.cpp / packetize_h265.cpp, which define the codec's constants.
#include "vf.h"
#include "bytebuf_model.h"
#include "packetize_util.h"
using namespace srtc;
namespace {
// the units of the frame: NaluParser's contract (proved under C16): unit i is at starts[i], of sizes[i] bytes.
// nx[i] is the first unit at or after i that is not a parameter set (its defining equations are used where needed).
uint64_t g_N, g_D; uint8_t* g_d; uint32_t *g_start, *g_size, *g_nx;
uint64_t g_i, g_pos, g_k; bool g_full, g_added; PK* g_pk;
bool isParam(uint8_t t) { return ISPARAM(t); }
bool isKey(uint8_t t) { return ISKEY(t); }
uint8_t typeAt(uint64_t i) { return TYPE(g_d + g_start[i]); }
uint64_t body(uint64_t i) { return g_size[i] - HDR; }
void define(uint64_t i)
{
    vf_assume(g_nx[i] >= i && g_nx[i] <= g_N);
    if (i >= g_N) return;
    vf_assume(g_size[i] >= HDR && g_size[i] <= g_D && g_start[i] <= g_D - g_size[i]);
    const uint8_t t = typeAt(i);
    vf_assume(t < MAXTYPE);
    vf_assume(isParam(t) ? g_nx[i] == g_nx[i + 1] : g_nx[i] == i);
}
void next_unit() { if (g_full) { g_i = g_nx[g_i] + 1; g_pos = 0; g_full = false; } }
void np_ctor(NaluParser* p, const ByteBuffer*) { *(const uint8_t**)&p->mBuf = nullptr; *(size_t*)&p->mSize = 0; p->mPos = p->mSkip = p->mNextPos = p->mNextSkip = 0; }
bool np_bool(const NaluParser* p) { if (p->mPos < g_N) { define(p->mPos); return true; } return false; }
void np_next(NaluParser* p) { vf_assert(p->mPos < g_N, "next() only on a unit"); next_unit(); p->mPos++; }
bool np_end(const NaluParser* p) { return p->mPos + 1 >= g_N; }
uint8_t np_type(const NaluParser* p) { vf_assert(p->mPos < g_N, "a unit"); define(p->mPos); return typeAt(p->mPos); }
const uint8_t* np_data(const NaluParser* p) { vf_assert(p->mPos < g_N, "a unit"); return g_d + g_start[p->mPos]; }
size_t np_size(const NaluParser* p) { vf_assert(p->mPos < g_N, "a unit"); return g_size[p->mPos]; }
// parameter sets: which bytes are kept (ByteBuffer::assign is proved under C23)
void keep(ByteBuffer* self, const uint8_t* src, size_t size)
{
    vf_assert(vf_live(src) && vf_offset(src) + size <= vf_objsize(src), "inside the frame");
    vf_assert(self == paramBuf(TYPE(src)), "parameter sets are kept by type");
    self->mLen = vf_any_u8(); vf_assume(self->mLen >= 1 && self->mLen <= 200);
    vf_cover("parameter set");
}
bool inv_pos()
{
    if (g_i > g_N) return false;
    const uint64_t j = g_nx[g_i];
    if (j > g_N) return false;
    return (g_pos <= body(j)) & (!((g_pos == body(j)) & (g_pos > 0)) | g_full) & (!g_full | (g_pos == body(j))) & (!g_full | (j < g_N));
}
bool inv_clean() { return !g_full & (g_pos == 0); }
bool inv_cur(uint64_t x) { return x <= g_N && g_i <= g_N && g_nx[x] == g_nx[g_i]; }
bool inv_ahead(uint64_t x) { return x <= g_N && g_i <= g_N && g_nx[g_i] < g_N && g_nx[x] == g_nx[g_nx[g_i] + 1]; }
bool inv_left(uint64_t x) { return g_i <= g_N && g_nx[g_i] < g_N && x == body(g_nx[g_i]) - g_pos; }
void packet(const RtpPacket& p)
{
    next_unit();
    vf_assert(g_i <= g_N, "units");
    define(g_i);
    const uint64_t j = g_nx[g_i];
    vf_assert(j < g_N, "nothing after the frame's last unit");
    define(j); define(j + 1);
    const uint8_t* u = g_d + g_start[j]; const uint64_t un = g_size[j];
    const uint8_t t = TYPE(u);
    const uint8_t* d = p.getPayload().data(); const uint64_t n = p.getPayload().size();
    const bool last = g_nx[j + 1] == g_N; // the last unit of the frame
    if (isKey(t) && !g_added) {
        g_added = true;
        if (haveParams()) {
            vf_assert(!p.getMarker(), "the parameter sets are not the end of the frame");
            vf_assert(p.getPaddingSize() == 0, "not padded");
            checkParams(d, n);
            vf_cover("parameter sets before the key frame");
            return;
        }
    }
    vf_assert(n > HDR || un <= HDR, "every packet carries something");
    if (TYPE(d) != FUTYPE) {
        vf_assert(g_pos == 0, "a unit is not sent twice");
        vf_assert(n == un, "the whole unit");
        if (g_k < un) { vf_assert(d[g_k] == u[g_k], "the unit's bytes"); vf_cover("single"); }
        g_pos = body(j); g_full = true;
        vf_assert(p.getMarker() == last, "the marker on the last packet of the frame only");
        return;
    }
    vf_assert(n > HDR + 1 && n - HDR - 1 <= body(j) - g_pos, "a fragment of the unit");
    const bool first = g_pos == 0, end = g_pos + (n - HDR - 1) == body(j);
    FUCHECK(d, u);
    vf_assert((d[HDR] & 0x80) == (first ? 0x80 : 0), "the start flag on the first fragment only");
    vf_assert((d[HDR] & 0x40) == (end ? 0x40 : 0), "the end flag on the last fragment only");
    vf_assert(!(first && end), "a fragment is not a whole unit");
    vf_assert(FUKIND(d[HDR], t), "the unit's type");
    if (g_k < n - HDR - 1) { vf_assert(d[HDR + 1 + g_k] == u[HDR + g_pos + g_k], "the unit's bytes in order"); vf_cover("fragment"); }
    vf_assert(p.getMarker() == (end && last), "the marker on the last packet of the frame only");
    g_pos += n - HDR - 1;
    if (end) { g_full = true; vf_cover("end"); }
}
ByteBuffer paramSet(const char* nm)
{
    ByteBuffer b; b.mBuf = (uint8_t*)vf_bytes(200, nm); b.mCap = 200; b.mLen = vf_range(0, 200, nm);
    return b;
}
}
#define NP "srtc::" CODECNS "::NaluParser::"
namespace {
void native_units()
{
        auto pk = g_pk = new PK(makeTrack(TrackSpec{ 1, 2, 96, 97 }, CODEC));
        g_k = vf_range(0, 1200, "k");
        g_i = g_pos = 0; g_full = g_added = false;
        ByteBuffer f;
        g_N = vf_range(0, 6, "units");
        std::vector<uint8_t> d; bool keySeen = false; unsigned have = 0; g_start = new uint32_t[8]; g_size = new uint32_t[8]; g_nx = new uint32_t[9];
        for (uint64_t i = 0; i < g_N; i++) {
            static const uint8_t types[] = TYPES;
            uint8_t t = types[vf_range(0, sizeof types - 1, "type")];
            // parameter sets are all alike, and come before the key frame if at all
            if (isParam(t) && keySeen && __builtin_popcount(have) < PARAMS) t = 1;
            if (isParam(t)) have |= 1u << (t & 7);
            if (isKey(t)) keySeen = true;
            const uint64_t big = vf_range(0, 3, "big");
            const uint64_t n = isParam(t) ? 20 : big == 0 ? vf_range(HDR, 40, "n") : big == 1 ? vf_range(900, 1300, "n") : vf_range(1300, 4000, "n");
            for (int q = 0; q < 3; q++) d.push_back(0);
            d.push_back(1);
            g_start[i] = d.size(); g_size[i] = n;
            HEADER(d, t);
            if (!isParam(t)) { uint8_t* u = d.data() + g_start[i]; u[0] = (uint8_t)((u[0] & TYPEMASK) | (vf_u8("flags") & ~TYPEMASK)); if (HDR > 1) u[1] = (uint8_t)(vf_u8("ids") | 1); }
            for (uint64_t q = HDR; q < n; q++) d.push_back((q * 7 + (isParam(t) ? 0 : i)) % 251 + 1);
        }
        g_nx[g_N] = g_N; g_nx[g_N + 1] = g_N; g_d = d.data(); g_D = d.size(); g_size[g_N] = HDR; g_start[g_N] = 0;
        for (uint64_t i = g_N; i-- > 0;) g_nx[i] = isParam(typeAt(i)) ? g_nx[i + 1] : i;
        for (auto b : nativeParams()) b->mLen = 0;
        f = ByteBuffer(d.data(), d.size());
        run(pk, f, [&](){ next_unit(); vf_assert(g_nx[g_i] == g_N && g_pos == 0, "all units of the frame"); });
}
}
extern "C" __attribute__((noinline, used)) void vfc_parser()
{
    vf_stub(NP "NaluParser(srtc::ByteBuffer const&)", (void*)&np_ctor);
    vf_stub(NP "operator bool() const", (void*)&np_bool);
    vf_stub(NP "next()", (void*)&np_next);
    vf_stub(NP "isAtEnd() const", (void*)&np_end);
    vf_stub(NP "currType() const", (void*)&np_type);
    vf_stub(NP "currData() const", (void*)&np_data);
    vf_stub(NP "currDataSize() const", (void*)&np_size);
    vf_stub("srtc::ByteBuffer::assign(unsigned char const*, unsigned long)", (void*)&keep);
}
namespace {
const uint64_t kSizes[] = { 2, 300, 1171, 1172, 1173, 2340, 2341, 2400 };
uint64_t oneOf(const uint64_t* a, int n, const char* nm) { return a[vf_case(vf_range(0, n - 1, nm), 0, n - 1)]; }
template <int count> void few()
{
    static const uint8_t types[] = TYPES;
    auto pk = g_pk = new PK(makeTrack(TrackSpec{ 1, 2, 96, 97 }, CODEC));
    g_k = vf_range(0, 1200, "k");
    g_i = g_pos = 0; g_full = g_added = false;
    g_limit = 16; g_fixedPad = 0;
    g_fixedExt = vf_fork(vf_bool("withext")) ? 8 : 0;
    const bool known = vf_fork(vf_bool("known"));
    for (auto b : nativeParams()) { b->mBuf = (uint8_t*)vf_bytes(200, "params"); b->mCap = 200; b->mLen = known ? 20 : 0; }
    g_N = count; g_D = 0;
    g_start = new uint32_t[count + 2]; g_size = new uint32_t[count + 2]; g_nx = new uint32_t[count + 3];
    uint8_t ty[count + 1];
    for (int i = 0; i < count; i++) {
        ty[i] = types[vf_case(vf_range(0, sizeof types - 1, "type"), 0, sizeof types - 1)];
        g_start[i] = (uint32_t)g_D; g_size[i] = (uint32_t)(isParam(ty[i]) ? 20 : i == count - 1 ? oneOf(kSizes, 8, "size") : oneOf(kSizes + 1, 3, "size") );
        g_D += g_size[i];
    }
    g_d = (uint8_t*)vf_bytes(g_D, "frame");
    for (int i = 0; i < count; i++) { std::vector<uint8_t> h; HEADER(h, ty[i]); if (isParam(ty[i])) { for (size_t q = 0; q < h.size(); q++) g_d[g_start[i] + q] = h[q]; continue; } uint8_t* u = g_d + g_start[i]; u[0] = (uint8_t)((h[0] & TYPEMASK) | (u[0] & ~TYPEMASK)); }
    g_start[count] = 0; g_size[count] = HDR; g_nx[count] = g_nx[count + 1] = count;
    for (int i = count; i-- > 0;) g_nx[i] = isParam(ty[i]) ? g_nx[i + 1] : i;
    ByteBuffer f;
    run(pk, f, [&](){
        next_unit();
        vf_assert(g_nx[g_i] == g_N && g_pos == 0, "all units of the frame");
        vf_cover("end of frame");
    });
}
}
VF_HARNESS(units1) { vfc_packetizer(packet); vfc_parser(); g_numbered = false; vf_unroll("*", 3000); vf_bounded("frames of one unit, of eight sizes"); if (vf_mode() == 1) few<1>(); else native_units(); }
VF_HARNESS(units2) { vfc_packetizer(packet); vfc_parser(); g_numbered = false; vf_unroll("*", 3000); vf_bounded("frames of two units, of three and eight sizes"); if (vf_mode() == 1) few<2>(); else native_units(); }
VF_HARNESS(units3) { vfc_packetizer(packet); vfc_parser(); g_numbered = false; vf_unroll("*", 3000); vf_bounded("frames of three units, of three and eight sizes"); if (vf_mode() == 1) few<3>(); else native_units(); }
VF_HARNESS(units)
{
    vfc_packetizer(packet); vfc_parser(); g_numbered = false;
    vf_unroll("generate", -1); vf_unroll("isLastInFrame", -1);
    vf_inv0(inv_pos); vf_inv0(inv_clean); vf_inv1(inv_cur); vf_inv1(inv_ahead); vf_inv1(inv_left);
    auto pk = g_pk = new PK(makeTrack(TrackSpec{ 1, 2, 96, 97 }, CODEC));
    initParams();
    g_k = vf_range(0, 1200, "k");
    g_i = g_pos = 0; g_full = g_added = false;
    ByteBuffer f;
    if (vf_mode() == 1) {
        g_N = vf_range(0, 1u << 20, "units"); g_D = vf_range(0, 1u << 30, "bytes");
        g_d = (uint8_t*)vf_bytes(g_D, "frame");
        g_start = (uint32_t*)vf_bytes(4 * (g_N + 1), "starts"); g_size = (uint32_t*)vf_bytes(4 * (g_N + 1), "sizes"); g_nx = (uint32_t*)vf_bytes(4 * (g_N + 2), "next");
        define(0);
        run(pk, f, [&](){
            next_unit();
            vf_assert(g_i <= g_N, "units");
            define(g_N);
            vf_assert(g_nx[g_i] == g_N && g_pos == 0, "all units of the frame");
        });
    } else native_units();
}
