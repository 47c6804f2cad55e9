// PROPERTY: C19
// TUS: src/depacketizer_av1.cpp src/depacketizer_video.cpp src/depacketizer.cpp src/codec_av1.cpp src/bit_reader.cpp src/byte_buffer.cpp src/track.cpp src/rtp_extension.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp
// OPT: av1_three tier=thorough
// OPT: av1_two cost=30
// OPT: av1_split cost=30
// OPT: av1_any cost=30
// ASSUME: RandomGenerator::next returns a value of its interval
// ASSUME: OBUs in RTP packets carry no size field of their own (AV1 RTP 4.5: SHOULD)
// AV1 depacketizer against the AV1 RTP payload format: aggregation header Z/Y/W/N, OBU elements.
#include "vf.h"
#include "bytebuf_model.h"
#include "track_util.h"
#include "stub_random.h"
#include "srtc/depacketizer_av1.h"
#include "srtc/codec_av1.h"
#include <new>
using namespace srtc;
namespace {
JitterBufferItem* item(const char* nm, bool marker, uint64_t max = 65535)
{
    auto it = new JitterBufferItem();
    const uint64_t n = vf_range(0, max, nm);
    it->payload.mBuf = (uint8_t*)vf_bytes(n, nm); it->payload.mLen = it->payload.mCap = n;
    it->received = true; it->marker = marker;
    return it;
}
// LEB128, at most five bytes
void lebDecode(const uint8_t* d, uint64_t n, uint64_t pos, uint32_t* v, uint64_t* len)
{
    uint32_t r = 0; uint64_t l = 0;
    for (int i = 0; i < 5; i++) { if (pos + l >= n) break; const uint32_t b = d[pos + l]; r |= (b & 127) << (7 * i); l++; if (!(b & 128)) break; }
    *v = r; *len = l;
}
// Under the verifier, sizes are what the contract of readLEB128 (proved in C15) says: some value, one to five bytes.
// Reading the same place twice gives the same value.
struct Leb { const uint8_t* d; uint64_t pos; uint32_t v; uint64_t l; };
Leb g_leb[12]; int g_made, g_read;
void leb(const uint8_t* d, uint64_t n, uint64_t pos, uint32_t* v, uint64_t* len)
{
    if (vf_mode() == 0) { lebDecode(d, n, pos, v, len); return; }
    const uint64_t l = vf_any_u8(); const uint32_t x = vf_any_u32();
    vf_assume(l >= 1 && l <= 5 && l <= n - pos);
    g_leb[g_made++] = { d, pos, x, l };
    *v = x; *len = l;
}
uint32_t read_leb(ByteReader* self)
{
    vf_assert(self->mPos < self->mLen, "a size is read only if there is something left");
    vf_assert(g_read < g_made, "sizes are read where the payload format has them");
    const Leb& q = g_leb[g_read++];
    vf_assert(self->mBuf == q.d && self->mPos == q.pos, "a size is read at the start of each element");
    self->mPos += q.l;
    return q.v;
}
uint32_t read_leb_any(ByteReader* self)
{
    if (self->mPos >= self->mLen) return 0;
    const uint64_t l = vf_any_u8();
    vf_assume(l >= 1 && l <= 5 && l <= self->mLen - self->mPos);
    self->mPos += l;
    return vf_any_u32();
}
// writeLEB128 (its encoding is proved in C15): recorded, with the place where it was written
struct LebOut { uint64_t pos; uint32_t v; };
LebOut g_out[12]; int g_wrote, g_checked;
void write_leb(ByteWriter* self, uint32_t v) { g_out[g_wrote++] = { self->mBuf.mLen, v }; }
void lebOut(const uint8_t* d, uint64_t n, uint64_t pos, uint32_t* v, uint64_t* len)
{
    if (vf_mode() == 0) { lebDecode(d, n, pos, v, len); return; }
    vf_assert(g_checked < g_wrote && g_out[g_checked].pos == pos, "the size follows the header");
    *v = g_out[g_checked++].v; *len = 0;
}
struct Obu { uint8_t h, e; bool ext; const uint8_t* p[3]; uint64_t n[3]; int parts; };
void put_any(ByteBuffer* self, const uint8_t* src, size_t size)
{
    if (size > 0) { vf_assert(vf_live(src) && vf_offset(src) + size <= vf_objsize(src), "appends read inside the packet"); if (!self->mBuf) { self->mBuf = new uint8_t[1]; self->mCap = 1; } self->mLen = 1; }
}
void put_any2(ByteBuffer* self, const ByteBuffer*) { put_any(self, (const uint8_t*)self, 1); }
void write_any(ByteWriter*, const ByteBuffer*) {}
void write_u8_any(ByteWriter*, uint8_t) {}
void write_leb_any(ByteWriter*, uint32_t) {}
template <int count, int m0, int m1, int m2>
void frame()
{
    auto dp = new DepacketizerAV1(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::AV1));
    const bool seen = count > 1 || vf_bool("seen"), marker = count > 1 || vf_bool("marker");
    dp->mSeenNewSequence = seen;
    std::vector<const JitterBufferItem*> in;
    static Obu o[8]; int c = 0; bool open = false, anyN = false;
    for (int i = 0; i < count; i++) {
        auto it = item("p", i == count - 1 && marker);
        in.push_back(it);
        const uint8_t* d = it->payload.data(); const uint64_t n = it->payload.size();
        const int maxObu = i == 0 ? m0 : i == 1 ? m1 : m2;
        if (count > 1) vf_assume(n >= 2); else if (n < 1) continue;
        const bool Z = d[0] & 0x80, N = d[0] & 8; const unsigned W = (d[0] >> 4) & 3;
        if (N) anyN = true;
        if constexpr (count > 1) vf_assume(!N && (i > 0 || !Z)); // well-formed only: the rest is in av1_one and av1_any
        uint64_t pos = 1;
        bool done = false;
        for (int j = 0; j < maxObu; j++) {
            if (pos >= n) { done = true; break; }
            uint64_t size;
            if (W != 0 && j == (int)W - 1) size = n - pos;
            else { uint32_t v; uint64_t l; leb(d, n, pos, &v, &l); pos += l; size = v; }
            if constexpr (count > 1) vf_assume(size > 2 && size <= n - pos);
            if (size == 0 || size > n - pos) { done = true; if constexpr (count == 1) vf_cover("malformed"); break; }
            if (Z && j == 0) {
                if (open) { Obu& q = o[c - 1]; q.p[q.parts] = d + pos; q.n[q.parts] = size; q.parts++; if constexpr (count > 1) vf_cover("continued"); }
            } else {
                Obu& q = o[c++];
                q = {};
                q.h = d[pos]; q.ext = d[pos] & 4;
                vf_assume(q.h != 0 && !(q.h & 2)); // a real unit type, no size field of its own
                vf_assume(!q.ext || size >= 2);    // the unit's header is not split
                const uint64_t hs = q.ext ? 2 : 1;
                if (q.ext) q.e = d[pos + 1];
                q.p[0] = d + pos + hs; q.n[0] = size - hs; q.parts = 1;
                open = true;
                vf_cover("unit");
            }
            pos += size;
            if (W != 0 && j == (int)W - 1) { done = true; break; }
        }
        vf_assume(done || pos >= n);
    }
    std::vector<ByteBuffer> out;
    dp->extract(out, in);
    vf_assert(dp->mSeenNewSequence == (seen || anyN), "waits for a new coded video sequence");
    const bool want = c > 0 && (seen || anyN) && marker;
    vf_assert(out.size() == (want ? 1u : 0u), "one frame at the marker");
    if (!want) return;
    const uint8_t* f = out[0].data(); const uint64_t fn = out[0].size();
    const uint64_t k = vf_range(0, 65535, "k");
    uint64_t p = 0;
    const uint64_t which = vf_range(0, 7, "part"); uint64_t idx = 0; // any one of the parts
    for (int i = 0; i < c; i++) {
        uint64_t sz = 0;
        for (int j = 0; j < o[i].parts; j++) sz += o[i].n[j];
        vf_assert(p + 1 <= fn && f[p] == (o[i].h | 2), "the unit's header, with the size flag");
        p++;
        if (o[i].ext) { vf_assert(f[p] == o[i].e, "the extension byte"); p++; vf_cover("extension"); }
        uint32_t v; uint64_t l; lebOut(f, fn, p, &v, &l);
        vf_assert(v == sz, "the unit's size"); p += l;
        vf_assert(p + sz <= fn, "all of the unit");
        for (int j = 0; j < o[i].parts; j++) {
            if (idx++ == which && k < o[i].n[j]) { vf_assert(f[p + k] == o[i].p[j][k], "the unit's bytes in order"); vf_cover("bytes"); }
            p += o[i].n[j];
        }
    }
    vf_assert(p == fn, "nothing but the units");
    dp->reset();
    vf_assert(!dp->mSeenNewSequence, "reset waits for a new sequence again");
}
}
#define SETUP() vfc_bytebuf(); vf_unroll("*", 12); \
    vf_stub("srtc::ByteReader::readLEB128()", (void*)&read_leb); \
    vf_stub("srtc::ByteWriter::writeLEB128(unsigned int)", (void*)&write_leb)
VF_HARNESS(av1_one) { SETUP(); vf_bounded("frames of one packet with up to two units"); frame<1, 2, 0, 0>(); }
VF_HARNESS(av1_two) { SETUP(); vf_bounded("frames of two packets with one and up to two units"); frame<2, 1, 2, 0>(); }
VF_HARNESS(av1_split) { SETUP(); vf_bounded("frames of two packets with up to two units and one"); frame<2, 2, 1, 0>(); }
VF_HARNESS(av1_three) { SETUP(); vf_bounded("frames of three packets with one unit each"); frame<3, 1, 1, 1>(); }
VF_HARNESS(av1_any)
{
    vfc_bytebuf(); vf_unroll("extract", 8); vf_unroll("extract#2", -1);
    vf_stub("srtc::ByteReader::readLEB128()", (void*)&read_leb_any);
    vf_stub("srtc::ByteBuffer::append(unsigned char const*, unsigned long)", (void*)&put_any);
    vf_stub("srtc::ByteBuffer::append(srtc::ByteBuffer const&)", (void*)&put_any2);
    vf_stub("srtc::ByteWriter::write(srtc::ByteBuffer const&)", (void*)&write_any);
    vf_stub("srtc::ByteWriter::writeU8(unsigned char)", (void*)&write_u8_any);
    vf_stub("srtc::ByteWriter::writeLEB128(unsigned int)", (void*)&write_leb_any);
    auto dp = new DepacketizerAV1(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::AV1));
    dp->mSeenNewSequence = vf_bool("seen");
    std::vector<const JitterBufferItem*> in;
    in.push_back(item("p", vf_bool("marker")));
    std::vector<ByteBuffer> out;
    dp->extract(out, in);
    vf_cover("end");
}
VF_HARNESS(av1_start)
{
    // not a continuation, and one of the first three units is a sequence header or a frame
    vfc_bytebuf(); vf_unroll("*", 5); vf_bounded("packets of up to three units");
    vf_stub("srtc::ByteReader::readLEB128()", (void*)&read_leb);
    DepacketizerAV1 dp(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::AV1));
    const bool marker = vf_bool("marker");
    auto it = item("p", marker);
    const uint8_t* d = it->payload.data(); const uint64_t n = it->payload.size();
    bool want = false;
    if (n >= 1 && !(d[0] & 0x80)) {
        const unsigned W = (d[0] >> 4) & 3;
        uint64_t pos = 1; bool done = false;
        for (int j = 0; j < 3; j++) {
            if (pos >= n) { done = true; break; }
            uint64_t size;
            if (W != 0 && j == (int)W - 1) size = n - pos;
            else { uint32_t v; uint64_t l; leb(d, n, pos, &v, &l); pos += l; size = v; }
            if (pos >= n) { done = true; break; }
            vf_assume(size > 0); // empty elements: no claim
            const uint8_t t = (d[pos] >> 3) & 15;
            if (t == 1 || t == 3 || t == 6 || t == 7) { want = true; done = true; break; }
            if (size > n - pos) { done = true; break; }
            pos += size;
            if (W != 0 && j == (int)W - 1) { done = true; break; }
        }
        vf_assume(done || pos >= n);
    }
    const PacketKind k = dp.getPacketKind(it->payload, marker);
    vf_assert(k == (want ? (marker ? PacketKind::Standalone : PacketKind::Start) : (marker ? PacketKind::End : PacketKind::Middle)),
              "the first packet of a frame is recognised by its content, the last by the marker");
    if (want) vf_cover("start"); else vf_cover("not a start");
}
VF_HARNESS(av1_start_safe)
{
    vfc_bytebuf(); vf_unroll("isFrameStart", -1);
    DepacketizerAV1 dp(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::AV1));
    vf_stub("srtc::ByteReader::readLEB128()", (void*)&read_leb_any);
    auto it = item("p", false);
    (void)dp.getPacketKind(it->payload, false);
    vf_cover("end");
}
