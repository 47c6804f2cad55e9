// Depacketizer for H.264 (RFC 6184) / H.265 (RFC 7798): units of every packet, fragments, aggregation, key frame gate.
// Included by depack_h264.cpp / depack_h265.cpp, which define the codec's constants.
#include "vf.h"
#include "bytebuf_model.h"
#include "track_util.h"
#include "srtc/byte_buffer.h"
#include <new>
using namespace srtc;
namespace {
DP* g_dp; const uint8_t* g_d; uint64_t g_n, g_pos, g_k; uint32_t g_units; bool g_first; int g_phase;
uint32_t be16(const uint8_t* p) { return p[0] << 8 | p[1]; }
bool unitAt(uint64_t pos) { return pos + 2 <= g_n && be16(g_d + pos) >= MINU && pos + 2 + be16(g_d + pos) <= g_n; }
void storage(ByteBuffer* self, size_t cap) { bb_ensure(self, cap); }
// the frame under construction seen as a stream: start code, then the next unit of the aggregation packet
void put(ByteBuffer* self, const uint8_t* src, size_t size)
{
    if (self != &g_dp->mFrameBuffer) {
        storage(self, self->mLen + size);
        __builtin_memcpy(self->mBuf + self->mLen, src, size); self->mLen += size;
        return;
    }
    if (g_phase == 0) {
        vf_assert(size == 4 && src[0] == 0 && src[1] == 0 && src[2] == 0 && src[3] == 1, "units are separated by a start code");
        g_phase = 1;
    } else {
        vf_assert(unitAt(g_pos), "units are taken from complete length-prefixed bytes only");
        vf_assert(size == be16(g_d + g_pos), "the unit has the size it was sent with");
        if (g_k < size) { vf_assert(src[g_k] == g_d[g_pos + 2 + g_k], "the unit's bytes"); }
        g_pos += 2 + be16(g_d + g_pos); g_phase = 0;
        vf_cover("unit");
    }
    self->mLen = 1;
}
void put2(ByteBuffer* self, const ByteBuffer* b) { if (b->mLen > 0) put(self, b->mBuf, b->mLen); }
void put_any(ByteBuffer* self, const uint8_t* src, size_t size)
{
    // stays inside both the source and the destination
    if (size > 0) { vf_assert(vf_live(src) && vf_offset(src) + size <= vf_objsize(src), "appends read inside the packet"); self->mLen = 1; }
}
void put_any2(ByteBuffer* self, const ByteBuffer* b) { put_any(self, b->mBuf, b->mLen); }
bool inv_any(uint64_t x) { return (x & 1) == (g_pos > HDR); } // "something was appended"
bool slice_start(const uint8_t* p, size_t n)
{
    // contract of isSliceFrameStart (proved in C17): the first bit
    if (n == 0) return false;
    vf_assert(vf_live(p) && vf_offset(p) + n <= vf_objsize(p), "slice data inside the packet");
    return p[0] & 0x80;
}
bool inv_pos() { return (g_pos >= HDR) & (g_pos <= g_n) & (g_phase == 0); }
JitterBufferItem* item(const char* nm, uint64_t ts, bool marker, uint64_t max = 65535)
{
    auto it = new JitterBufferItem();
    const uint64_t n = vf_range(0, max, nm);
    it->payload.mBuf = (uint8_t*)vf_bytes(n, nm); it->payload.mLen = it->payload.mCap = n;
    it->received = true; it->marker = marker; it->rtp_timestamp_ext = ts;
    return it;
}
DP* anyDepack(bool open)
{
    auto dp = new DP(makeTrack(TrackSpec{ 1, 96, 2, 97 }, CODEC));
    dp->mFrameBuffer.mLen = 0;
    dp->mHaveBits = open ? HAVEALL : vf_u8("have");
    dp->mLastRtpTimestamp = vf_u32("lastts");
    g_dp = dp; g_phase = 0; g_units = 0;
    return dp;
}
// native replay: the expected frame, written out
void expectFrame(const ByteBuffer& f, const std::vector<std::pair<const uint8_t*, uint64_t>>& u)
{
    uint64_t p = 0;
    for (auto& x : u) {
        vf_assert(f.size() >= p + 4 + x.second, "every unit is in the frame");
        const uint8_t* d = f.data() + p;
        vf_assert(d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1, "start code");
        for (uint64_t i = 0; i < x.second; i++) vf_assert(d[4 + i] == x.first[i], "unit bytes");
        p += 4 + x.second;
    }
    vf_assert(f.size() == p, "nothing but the units");
}
}
// one aggregation packet with any number of units
VF_HARNESS(aggregation)
{
    vfc_bytebuf();
    vf_stub("srtc::ByteBuffer::append(unsigned char const*, unsigned long)", (void*)&put);
    vf_stub("srtc::ByteBuffer::append(srtc::ByteBuffer const&)", (void*)&put2);
    vf_unroll("extract", 8); vf_unroll("extract#2", -1);
    vf_inv0(inv_pos); vf_inv1(inv_any);
    auto dp = anyDepack(true);
    const uint64_t ts = vf_u32("ts");
    auto it = item("p", ts, vf_bool("marker"));
    g_d = it->payload.data(); g_n = it->payload.size(); g_pos = HDR; g_k = vf_range(0, 65535, "k");
    vf_assume(g_n >= HDR && TYPE(g_d) == AGG);
    std::vector<ByteBuffer> out;
    std::vector<const JitterBufferItem*> in; in.push_back(it);
    dp->mFrameBuffer.mLen = 0;
    dp->extract(out, in);
    if (vf_mode() == 1) {
        vf_assert(!unitAt(g_pos) && g_phase == 0, "every unit of the packet is returned");
        const bool any = g_pos > HDR;
        vf_assert(out.size() == (any && it->marker ? 1u : 0u), "one frame at the marker, none before");
        vf_cover("end");
    } else {
        std::vector<std::pair<const uint8_t*, uint64_t>> u;
        while (unitAt(g_pos)) { u.push_back({ g_d + g_pos + 2, be16(g_d + g_pos) }); g_pos += 2 + be16(g_d + g_pos); }
        if (it->marker && !u.empty()) { vf_assert(out.size() == 1, "one frame at the marker"); expectFrame(out[0], u); }
        else { vf_assert(out.empty(), "no frame before the marker"); expectFrame(dp->mFrameBuffer, u); }
    }
}
// single units and fragments over up to three packets of arbitrary content
namespace {
struct Exp { const uint8_t* a; uint64_t an; uint8_t h[2]; bool fu; const uint8_t* b[3]; uint64_t bn[3]; int nb; };
// byte k of the unit
uint64_t expSize(const Exp& e) { if (!e.fu) return e.an; uint64_t s = HDR; for (int i = 0; i < e.nb; i++) s += e.bn[i]; return s; }
uint8_t expByte(const Exp& e, uint64_t k)
{
    if (!e.fu) return e.a[k];
    if (k < HDR) return e.h[k];
    k -= HDR;
    for (int i = 0; i < e.nb; i++) { if (k < e.bn[i]) return e.b[i][k]; k -= e.bn[i]; }
    return 0;
}
void fragmentsImpl(int count)
{
    auto dp = anyDepack(true);
    const uint64_t ts = vf_u32("ts");
    std::vector<const JitterBufferItem*> in;
    std::vector<Exp> exp;
    Exp fu = {}; bool open = false, ended = false;
    for (int i = 0; i < count; i++) {
        const bool last = i == count - 1;
        auto it = item("p", ts, last, 2000);
        in.push_back(it);
        ended = false;
        const uint8_t* d = it->payload.data(); const uint64_t n = it->payload.size();
        if (n < 2) { vf_cover("tiny"); continue; }
        const uint8_t t = TYPE(d);
        vf_assume(t != AGG);
        if (t == FU) {
            if (n <= HDR) continue;
            const uint8_t fh = d[HDR];
            if (fh & 0x80) { fu = {}; fu.fu = true; FUHDR(fu.h, d, fh); open = true; }
            if (open) { fu.b[fu.nb] = d + HDR + 1; fu.bn[fu.nb] = n - HDR - 1; fu.nb++; }
            if ((fh & 0x40) && open) { exp.push_back(fu); open = false; ended = true; vf_cover("fragmented unit"); }
        } else if (SINGLE(t)) {
            Exp e = {}; e.a = d; e.an = n; exp.push_back(e); ended = true;
            vf_cover("single unit");
        }
        else vf_cover("other type");
    }
    std::vector<ByteBuffer> out;
    dp->extract(out, in);
    vf_assert(out.size() == (ended ? 1 : 0), "the frame is returned at the marker when the last packet completes a unit");
    const ByteBuffer& f = ended ? out[0] : dp->mFrameBuffer;
    uint64_t p = 0;
    const uint64_t k = vf_range(0, 6000, "k");
    for (auto& e : exp) {
        const uint64_t s = expSize(e);
        vf_assert(p + 4 + s <= f.size(), "every unit is in the frame");
        const uint8_t* d = f.data() + p;
        vf_assert(d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1, "start code");
        if (k < s) { vf_assert(d[4 + k] == expByte(e, k), "unit bytes"); vf_cover("bytes"); }
        p += 4 + s;
    }
    vf_assert(f.size() == p, "nothing but the units");
}
}
VF_HARNESS(fragments1) { vfc_bytebuf(); vf_unroll("*", 8); vf_bounded("frames of one packet"); fragmentsImpl(1); }
VF_HARNESS(fragments2) { vfc_bytebuf(); vf_unroll("*", 8); vf_bounded("frames of two packets"); fragmentsImpl(2); }
VF_HARNESS(fragments3) { vfc_bytebuf(); vf_unroll("*", 8); vf_bounded("frames of three packets"); fragmentsImpl(3); }
// one unit on any earlier state: what is kept of the state, the key frame gate
VF_HARNESS(gate)
{
    vfc_bytebuf();
    vf_unroll("*", 8);
    auto dp = anyDepack(false);
    const uint64_t ts = vf_u32("ts");
    const bool marker = vf_bool("marker");
    const uint64_t old = vf_range(0, 5000, "old");
    auto o = (uint8_t*)vf_bytes(old, "oldframe");
    dp->mFrameBuffer.mBuf = o; dp->mFrameBuffer.mLen = dp->mFrameBuffer.mCap = old;
    auto it = item("p", ts, marker);
    const uint8_t* d = it->payload.data(); const uint64_t n = it->payload.size();
    vf_assume(n >= 2 && SINGLE(TYPE(d)));
    const uint8_t t = TYPE(d), have = dp->mHaveBits;
    const bool same = dp->mLastRtpTimestamp == ts;
    std::vector<ByteBuffer> out;
    std::vector<const JitterBufferItem*> in; in.push_back(it);
    const uint64_t k = vf_range(0, 70000, "k");
    const uint8_t ok = k < old ? o[k] : 0;
    dp->extract(out, in);
    uint8_t h2 = have;
    bool drop = false;
    if ((have & HAVEALL) != HAVEALL) { const uint8_t b = HAVEBIT(t); if (b) h2 |= b; else if (ISSLICE(t)) drop = true; }
    vf_assert(dp->mHaveBits == h2, "parameter sets and key frames seen");
    if (drop) { vf_assert(out.empty(), "nothing before the first key frame"); vf_cover("dropped"); return; }
    const uint64_t keep = same ? old : 0;
    vf_assert(out.size() == (marker ? 1u : 0u), "one frame at the marker");
    const ByteBuffer& f = marker ? out[0] : dp->mFrameBuffer;
    vf_assert(f.size() == keep + 4 + n, "earlier units of the same frame and the new one");
    const uint8_t* q = f.data();
    if (k < keep) { vf_assert(q[k] == ok, "earlier units"); vf_cover("earlier"); }
    vf_assert(q[keep] == 0 && q[keep + 1] == 0 && q[keep + 2] == 0 && q[keep + 3] == 1, "start code");
    if (k < n) vf_assert(q[keep + 4 + k] == d[k], "the new unit");
    if (marker) vf_assert(dp->mFrameBuffer.empty(), "the next frame starts empty");
    vf_assert(dp->mLastRtpTimestamp == ts, "timestamp of the frame");
    dp->reset();
    vf_assert(dp->mHaveBits == 0 && dp->mFrameBuffer.empty(), "reset waits for a key frame again");
    vf_cover("end");
}
// any packet at all, any state: stays inside the packet
VF_HARNESS(any_packet)
{
    vfc_bytebuf();
    vf_stub("srtc::ByteBuffer::append(unsigned char const*, unsigned long)", (void*)&put_any);
    vf_stub("srtc::ByteBuffer::append(srtc::ByteBuffer const&)", (void*)&put_any2);
    vf_unroll("extract", 8); vf_unroll("extract#2", -1);
    auto dp = anyDepack(false);
    auto it = item("p", vf_u32("ts"), vf_bool("marker"));
    std::vector<ByteBuffer> out;
    std::vector<const JitterBufferItem*> in; in.push_back(it);
    dp->extract(out, in);
    vf_cover("end");
}
// where frames start, for single units, fragments and aggregates of up to three units
VF_HARNESS(frame_start)
{
    vfc_bytebuf();
    vf_unroll("*", 5);
    vf_stub("srtc::h264::isSliceFrameStart(unsigned char const*, unsigned long)", (void*)&slice_start);
    vf_bounded("aggregation packets of up to three units");
    auto dp = anyDepack(true);
    const bool marker = vf_bool("marker");
    auto it = item("p", 0, marker);
    const uint8_t* d = it->payload.data(); const uint64_t n = it->payload.size();
    bool want = false;
    if (n >= 2) {
        const uint8_t t = TYPE(d);
        if (t == AGG) {
            g_d = d; g_n = n;
            uint64_t p = HDR;
            for (int i = 0; i < 3; i++) {
                if (!unitAt(p)) break;
                const uint64_t s = be16(d + p);
                if (s > HDR && STARTS(TYPE(d + p + 2), d + p + 2 + HDR, s - HDR)) { want = true; break; }
                p += 2 + s;
            }
            vf_assume(want || !unitAt(p));
        } else if (t == FU) {
            if (n > HDR + 1 && (d[HDR] & 0x80)) want = STARTS(d[HDR] & FUTYPE, d + HDR + 1, n - HDR - 1);
            else if (n == HDR + 1) { vf_assume(!(d[HDR] & 0x80)); }
        } else if (SINGLE(t)) want = STARTS(t, d + HDR, n - HDR);
        else vf_assume(!SINGLE(t) && t != EDGE);
    }
    const PacketKind k = dp->getPacketKind(it->payload, marker);
    vf_assert(k == (want ? (marker ? PacketKind::Standalone : PacketKind::Start) : (marker ? PacketKind::End : PacketKind::Middle)),
              "the first packet of a frame is recognised by its content, the last by the marker");
    if (want) vf_cover("start"); else vf_cover("not a start");
}
VF_HARNESS(frame_start_safe)
{
    vfc_bytebuf();
    vf_unroll("isFrameStart", -1);
    vf_stub("srtc::h264::isSliceFrameStart(unsigned char const*, unsigned long)", (void*)&slice_start);
    auto dp = anyDepack(true);
    auto it = item("p", 0, false);
    (void)dp->getPacketKind(it->payload, false);
    vf_cover("end");
}
