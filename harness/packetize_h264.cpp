// PROPERTY: C18
// TUS: src/packetizer.cpp src/packetizer_video.cpp src/packetizer_h264.cpp src/codec_h264.cpp src/bit_reader.cpp src/rtp_packet.cpp src/track.cpp src/rtp_extension.cpp src/rtp_extension_builder.cpp src/rtp_extension_source.cpp src/media.cpp src/extension_map.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp
// OPT: units tier=thorough
// OPT: units3 tier=thorough
// OPT: units2 tier=thorough
// ASSUME: RandomGenerator::next returns a value of its interval
// ASSUME: header extensions of at most 260 bytes, media protection overhead of at most 64 bytes, parameter sets of at most 200 bytes
// ASSUME: NaluParser returns the units of the frame (proved under C16)
#include "srtc/packetizer_h264.h"
#include "srtc/codec_h264.h"
#define TYPEMASK 0x9f
#define PK srtc::PacketizerH264
#define CODEC srtc::Codec::H264
#define CODECNS "h264"
#define HDR 1
#define PARAMS 2
#define TYPE(d) ((d)[0] & 31)
#define MAXTYPE 24
#define FUTYPE 28
#define ISPARAM(t) ((t) == 7 || (t) == 8)
#define ISKEY(t) ((t) == 5)
#define FUCHECK(d, u) vf_assert((d)[0] == (((u)[0] & 0x60) | 28), "the unit's importance in every fragment")
#define FUKIND(b, t) (((b) & 0x3f) == (t))
#define TYPES { 1, 5, 5, 6, 7, 8, 9 }
#define HEADER(d, t) (d).push_back(0x60 | (t))
#include "srtc/byte_buffer.h"
namespace srtc { namespace h264 {} }
using namespace srtc::h264;
namespace {
srtc::ByteBuffer* paramBuf(uint8_t t);
bool haveParams();
void checkParams(const uint8_t* d, uint64_t n);
void initParams();
std::vector<srtc::ByteBuffer*> nativeParams();
}
#include "packetize_nalu.h"
namespace {
ByteBuffer* paramBuf(uint8_t t) { return t == 7 ? &g_pk->mSPS : t == 8 ? &g_pk->mPPS : nullptr; }
bool haveParams() { return g_pk->mSPS.mLen != 0 && g_pk->mPPS.mLen != 0; }
void checkParams(const uint8_t* d, uint64_t n)
{
    const ByteBuffer &s = g_pk->mSPS, &q = g_pk->mPPS;
    vf_assert(n == 5 + s.mLen + q.mLen, "both parameter sets and their sizes");
    const uint8_t a = s.mBuf[0] & 0x60, b = q.mBuf[0] & 0x60;
    vf_assert(d[0] == ((a > b ? a : b) | 24), "an aggregation packet of the highest importance");
    vf_assert((d[1] << 8 | d[2]) == (int)s.mLen && (d[3 + s.mLen] << 8 | d[4 + s.mLen]) == (int)q.mLen, "their sizes");
    if (g_k < s.mLen) vf_assert(d[3 + g_k] == s.mBuf[g_k], "SPS");
    if (g_k < q.mLen) vf_assert(d[5 + s.mLen + g_k] == q.mBuf[g_k], "PPS");
}
void initParams() { g_pk->mSPS = paramSet("sps"); g_pk->mPPS = paramSet("pps"); }
std::vector<ByteBuffer*> nativeParams() { return { &g_pk->mSPS, &g_pk->mPPS }; }
}
