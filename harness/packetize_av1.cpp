// PROPERTY: C18
// TUS: src/packetizer.cpp src/packetizer_video.cpp src/packetizer_av1.cpp src/codec_av1.cpp src/bit_reader.cpp src/rtp_packet.cpp src/track.cpp src/rtp_extension.cpp src/rtp_extension_builder.cpp src/rtp_extension_source.cpp src/media.cpp src/extension_map.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp
// OPT: av1_two cost=30
// OPT: av1_three tier=thorough
// ASSUME: RandomGenerator::next returns a value of its interval
// ASSUME: header extensions of at most 260 bytes, media protection overhead of at most 64 bytes
// ASSUME: ObuParser returns the units of the frame
// AV1: units of any type, layer and content, over several packets, aggregated and fragmented.
#include "vf.h"
#include "bytebuf_model.h"
#include "packetize_util.h"
#include "srtc/packetizer_av1.h"
#include "srtc/codec_av1.h"
using namespace srtc;
using namespace srtc::av1;
namespace {
struct Unit { uint8_t type, tid, sid; const uint8_t* d; uint64_t n; };
Unit g_u[4]; uint64_t g_count, g_i, g_pos, g_k; bool g_newSeq;
uint8_t* g_base; // the parser's place, as an address in a block of its own
void skip() { while (g_i < g_count && (g_u[g_i].type == 2 || g_u[g_i].n == 0)) g_i++; }
// ObuParser: mCurrType is used as the index
void op_ctor(ObuParser* p, const ByteBuffer*) { *(const uint8_t**)&p->mData = nullptr; *(const uint8_t**)&p->mEnd = nullptr; p->mCurrType = 0; p->mCurrData = nullptr; p->mCurrSize = 0; p->mCurrTemporalId = p->mCurrSpatialId = 0; }
bool op_bool(const ObuParser* p) { return p->mCurrType < g_count; }
void op_next(ObuParser* p) { p->mCurrType++; }
bool op_end(const ObuParser* p) { return p->mCurrType + 1u >= g_count; }
uint8_t op_type(const ObuParser* p) { return g_u[p->mCurrType].type; }
const uint8_t* op_data(const ObuParser* p) { return g_u[p->mCurrType].d; }
size_t op_size(const ObuParser* p) { return g_u[p->mCurrType].n; }
uint8_t op_tid(const ObuParser* p) { return g_u[p->mCurrType].tid; }
uint8_t op_sid(const ObuParser* p) { return g_u[p->mCurrType].sid; }
bool sizeAt(const uint8_t* d, uint64_t n, uint64_t* pos, uint64_t* v)
{
    if (*pos >= n) return false;
    *v = 0; int sh = 0; uint8_t b;
    do { vf_assert(*pos < n && sh < 14, "a complete size"); b = d[(*pos)++]; *v |= (uint64_t)(b & 127) << sh; sh += 7; } while (b & 128);
    return true;
}
void packet(const RtpPacket& p)
{
    const uint8_t* d = p.getPayload().data(); const uint64_t n = p.getPayload().size();
    skip();
    vf_assert(g_i < g_count, "nothing after the last unit");
    vf_assert(n > 1, "every packet carries something");
    vf_assert(((d[0] & 0x80) != 0) == (g_pos > 0), "Z: continues a unit of the previous packet");
    vf_assert(((d[0] & 8) != 0) == (g_n == 0 && g_newSeq), "N: first packet of a coded video sequence");
    vf_assert((d[0] & 0x37) == 0, "sizes on all elements");
    uint64_t pos = 1, v;
    bool open = g_pos > 0;
    for (int e = 0; e < 6; e++) {
        if (!sizeAt(d, n, &pos, &v)) break;
        vf_assert(v > 0 && v <= n - pos, "an element is inside its packet");
        skip();
        vf_assert(g_i < g_count, "nothing after the last unit");
        const Unit& u = g_u[g_i];
        if (g_pos == 0) {
            const bool ext = u.tid != 0 || u.sid != 0;
            vf_assert(v > (ext ? 2u : 1u), "a header and something of the unit");
            vf_assert(d[pos] == (u.type << 3 | (ext ? 4 : 0)), "the unit's header");
            if (ext) { vf_assert(d[pos + 1] == (u.tid << 5 | u.sid << 3), "the unit's layer"); vf_cover("layer"); }
            pos += ext ? 2 : 1; v -= ext ? 2 : 1;
        } else vf_cover("continued");
        vf_assert(v <= u.n - g_pos, "no more than the unit");
        if (g_k < v) { vf_assert(d[pos + g_k] == u.d[g_pos + g_k], "the unit's bytes in order"); vf_cover("bytes"); }
        pos += v; g_pos += v;
        open = g_pos < u.n;
        if (!open) { g_i++; g_pos = 0; }
    }
    vf_assert(pos == n, "nothing but elements");
    vf_assert(((d[0] & 0x40) != 0) == open, "Y: the last unit goes on in the next packet");
    skip();
    vf_assert(p.getMarker() == (g_i == g_count), "the marker on the last packet of the frame only");
}
// the limit of a packet without padding and extension: 1200 - 12 - 16 - 5 = 1167
const uint64_t kSizes[] = { 1, 126, 1060, 1067, 1068, 1166, 1167, 1168, 1159, 2334, 2335, 2600 }, kFew[] = { 1, 200, 1068, 1168 };
template <class T, int N> uint64_t oneOf(const T (&a)[N], const char* nm) { return a[vf_case(vf_range(0, N - 1, nm), 0, N - 1)]; }
template <int count> void frame()
{
    g_numbered = true;
    if (vf_mode() == 1) g_limit = 16;
    g_fixedExt = vf_fork(vf_bool("withext")) ? 8 : 0; g_fixedPad = 0;
    auto pk = new PacketizerAV1(makeTrack(TrackSpec{ 1, 2, 96, 97 }, Codec::AV1));
    g_k = vf_range(0, 1200, "k");
    g_i = g_pos = 0; g_count = count; g_newSeq = false;
    ByteBuffer f;
    for (int i = 0; i < count; i++) {
        Unit& u = g_u[i];
        u.type = vf_u8("type") & 15; u.tid = vf_u8("tid") & 7; u.sid = vf_u8("sid") & 3;
        u.n = vf_mode() == 0 && vf_bool("other") ? vf_range(1, 3000, "anysize") : count == 1 ? oneOf(kSizes, "size") : oneOf(kFew, "size");
        auto b = (uint8_t*)vf_bytes(u.n, "unit"); u.d = b;
        if (u.type == 1) g_newSeq = true;
        if (vf_mode() == 0) {
            const bool ext = u.tid || u.sid;
            uint8_t h[6] = { (uint8_t)(u.type << 3 | (ext ? 4 : 0) | 2) }; int l = 1;
            if (ext) h[l++] = u.tid << 5 | u.sid << 3;
            uint64_t s = u.n;
            do { h[l++] = (s & 127) | (s > 127 ? 128 : 0); s >>= 7; } while (s);
            f.append(h, l); f.append(u.d, u.n);
        }
    }
    run(pk, f, [&](){
        skip();
        vf_assert(g_i == g_count && g_pos == 0, "all units of the frame");
        vf_cover("end");
    });
}
}
extern "C" __attribute__((noinline, used)) void vfc_av1()
{
    vf_stub("srtc::av1::ObuParser::ObuParser(srtc::ByteBuffer const&)", (void*)&op_ctor);
    vf_stub("srtc::av1::ObuParser::operator bool() const", (void*)&op_bool);
    vf_stub("srtc::av1::ObuParser::next()", (void*)&op_next);
    vf_stub("srtc::av1::ObuParser::isAtEnd() const", (void*)&op_end);
    vf_stub("srtc::av1::ObuParser::currType() const", (void*)&op_type);
    vf_stub("srtc::av1::ObuParser::currData() const", (void*)&op_data);
    vf_stub("srtc::av1::ObuParser::currSize() const", (void*)&op_size);
    vf_stub("srtc::av1::ObuParser::currTemporalId() const", (void*)&op_tid);
    vf_stub("srtc::av1::ObuParser::currSpatialId() const", (void*)&op_sid);
    vf_unroll("*", 3000);
}
VF_HARNESS(av1_one) { vfc_packetizer(packet); vfc_av1(); vf_bounded("frames of one unit, of twelve sizes"); frame<1>(); }
VF_HARNESS(av1_two) { vfc_packetizer(packet); vfc_av1(); vf_bounded("frames of two units, of four sizes"); frame<2>(); }
VF_HARNESS(av1_three) { vfc_packetizer(packet); vfc_av1(); vf_bounded("frames of three units, of four sizes"); frame<3>(); }
