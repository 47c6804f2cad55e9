// PROPERTY: C18
// TUS: src/packetizer.cpp src/packetizer_video.cpp src/packetizer_h265.cpp src/codec_h265.cpp src/bit_reader.cpp src/rtp_packet.cpp src/track.cpp src/rtp_extension.cpp src/rtp_extension_builder.cpp src/rtp_extension_source.cpp src/media.cpp src/extension_map.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp
// OPT: units tier=thorough
// OPT: units3 tier=thorough
// OPT: units2 tier=thorough
// ASSUME: RandomGenerator::next returns a value of its interval
// ASSUME: header extensions of at most 260 bytes, media protection overhead of at most 64 bytes, parameter sets of at most 200 bytes
// ASSUME: NaluParser returns the units of the frame (proved under C16)
#include "srtc/packetizer_h265.h"
#include "srtc/codec_h265.h"
#define TYPEMASK 0x7e
#define PK srtc::PacketizerH265
#define CODEC srtc::Codec::H265
#define CODECNS "h265"
#define HDR 2
#define PARAMS 3
#define TYPE(d) (((d)[0] >> 1) & 63)
#define MAXTYPE 48
#define FUTYPE 49
#define ISPARAM(t) ((t) >= 32 && (t) <= 34)
#define ISKEY(t) ((t) >= 19 && (t) <= 21)
#define FUCHECK(d, u) vf_assert(((d)[0] & 0x7f) == (((u)[0] & 1) | 49 << 1) && (d)[1] == (u)[1], "the unit's layer and temporal id in every fragment")
#define FUKIND(b, t) (((b) & 0x3f) == (t))
#define TYPES { 1, 19, 20, 21, 32, 33, 34, 39 }
#define HEADER(d, t) do { (d).push_back((t) << 1); (d).push_back(1); } while (0)
#include "srtc/byte_buffer.h"
namespace srtc { namespace h265 {} }
using namespace srtc::h265;
namespace {
srtc::ByteBuffer* paramBuf(uint8_t t);
bool haveParams();
void checkParams(const uint8_t* d, uint64_t n);
void initParams();
std::vector<srtc::ByteBuffer*> nativeParams();
}
#include "packetize_nalu.h"
namespace {
ByteBuffer* paramBuf(uint8_t t) { return t == 32 ? &g_pk->mVPS : t == 33 ? &g_pk->mSPS : t == 34 ? &g_pk->mPPS : nullptr; }
bool haveParams() { return g_pk->mVPS.mLen != 0 && g_pk->mSPS.mLen != 0 && g_pk->mPPS.mLen != 0; }
void checkParams(const uint8_t* d, uint64_t n)
{
    const ByteBuffer* b[3] = { &g_pk->mVPS, &g_pk->mSPS, &g_pk->mPPS };
    vf_assert(n == 8 + b[0]->mLen + b[1]->mLen + b[2]->mLen, "the parameter sets and their sizes");
    vf_assert(d[0] == 48 << 1, "an aggregation packet");
    uint64_t p = 2;
    for (int i = 0; i < 3; i++) {
        vf_assert((d[p] << 8 | d[p + 1]) == (int)b[i]->mLen, "its size");
        if (g_k < b[i]->mLen) vf_assert(d[p + 2 + g_k] == b[i]->mBuf[g_k], "its bytes");
        p += 2 + b[i]->mLen;
    }
}
void initParams() { g_pk->mVPS = paramSet("vps"); g_pk->mSPS = paramSet("sps"); g_pk->mPPS = paramSet("pps"); }
std::vector<ByteBuffer*> nativeParams() { return { &g_pk->mVPS, &g_pk->mSPS, &g_pk->mPPS }; }
}
