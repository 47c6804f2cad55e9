// PROPERTY: C18
// TUS: src/packetizer.cpp src/packetizer_video.cpp src/packetizer_audio.cpp src/packetizer_vp8.cpp src/packetizer_vp9.cpp src/packetizer_opus.cpp src/codec_vp9.cpp src/bit_reader.cpp src/rtp_packet.cpp src/track.cpp src/rtp_extension.cpp src/rtp_extension_builder.cpp src/rtp_extension_source.cpp src/media.cpp src/extension_map.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp
// ASSUME: RandomGenerator::next returns a value of its interval
// ASSUME: header extensions of at most 255 bytes (they are built from a few short elements), media protection overhead of at most 64 bytes
// ASSUME: Opus frames fit in a packet (an Opus frame cannot be fragmented)
// VP8, VP9, Opus: every frame of any size, any padding, any header extension per packet.
#include "vf.h"
#include "bytebuf_model.h"
#include "packetize_util.h"
#include "srtc/packetizer_vp8.h"
#include "srtc/packetizer_vp9.h"
#include "srtc/packetizer_opus.h"
using namespace srtc;
namespace {
uint8_t* g_f; uint64_t g_fn; uint64_t g_pos; uint64_t g_k;
bool inv() { return (g_pos <= g_fn) & ((g_n == 0) == (g_pos == 0)) & (g_n <= g_pos); }
bool inv_left(uint64_t x) { return x == g_fn - g_pos; }
uint64_t left() { return g_fn - g_pos; }
int g_codec; bool g_key, g_keyAny; uint16_t g_pid;
// vp9::isKeyFrame is a function of the frame
bool key_frame(const uint8_t* d, size_t n) { vf_assert(d == g_f && n == g_fn, "of the frame"); return g_keyAny; }
void packet(const RtpPacket& p)
{
    const uint8_t* d = p.getPayload().data(); const uint64_t n = p.getPayload().size();
    const uint64_t desc = g_codec == 0 ? 1 : 3;
    vf_assert(n > desc, "every packet carries something");
    vf_assert(n - desc <= g_fn - g_pos, "nothing but the frame");
    const bool first = g_pos == 0, last = g_pos + (n - desc) == g_fn;
    if (g_codec == 0) {
        vf_assert((d[0] & 0x10) == (first ? 0x10 : 0), "the start flag on the first packet only");
        vf_assert((d[0] & 0xCF) == 0, "no extended descriptor, partition zero");
    } else {
        vf_assert((d[0] & 8) == (first ? 8 : 0), "the start flag on the first packet only");
        vf_assert((d[0] & 4) == (last ? 4 : 0), "the end flag on the last packet only");
        vf_assert((d[0] & 0xB0) == 0x80, "a picture id and nothing else in the descriptor");
        vf_assert((d[0] & 0x40) == (g_key ? 0 : 0x40), "key frames are not predicted");
        vf_assert((d[1] & 0x80) && ((d[1] & 127) << 8 | d[2]) == g_pid, "every packet has the picture's id");
    }
    if (g_k < n - desc) { vf_assert(d[desc + g_k] == g_f[g_pos + g_k], "the bytes of the frame in order"); vf_cover("bytes"); }
    vf_assert(p.getMarker() == last, "the marker on the last packet only");
    g_pos += n - desc;
    if (last) vf_cover("last"); else vf_cover("more");
}
void frame(Packetizer* pk, Codec codec, uint64_t minSize, uint64_t max)
{
    g_fn = vf_range(0, max, "size");
    ByteBuffer f; f.mBuf = g_f = (uint8_t*)vf_bytes(g_fn, "frame"); f.mLen = f.mCap = g_fn;
    g_pos = 0; g_k = vf_range(0, 1200, "k");
    g_keyAny = vf_any_bool();
    g_key = g_codec == 1 && pk->isKeyFrame(f);
    run(pk, f, [&](){
        if (g_fn < minSize) { vf_assert(g_n == 0, "not a frame"); return; }
        vf_assert(g_pos == g_fn, "all of the frame");
    });
    f.mBuf = nullptr; f.mLen = f.mCap = 0;
}
}
VF_HARNESS(vp8)
{
    vfc_packetizer(packet); vf_unroll("generate", -1); vf_inv0(inv); vf_inv1(inv_left); vf_measure(left); g_codec = 0;
    auto t = makeTrack(TrackSpec{ 1, 2, 96, 97 }, Codec::VP8);
    auto pk = new PacketizerVP8(t);
    frame(pk, Codec::VP8, 3, 1u << 30);
}
VF_HARNESS(vp9)
{
    vfc_packetizer(packet); vf_unroll("generate", -1); vf_inv0(inv); vf_inv1(inv_left); vf_measure(left); g_codec = 1;
    vf_stub("srtc::vp9::isKeyFrame(unsigned char const*, unsigned long)", (void*)&key_frame);
    auto t = makeTrack(TrackSpec{ 1, 2, 96, 97 }, Codec::VP9);
    auto pk = new PacketizerVP9(t);
    g_pid = pk->mPictureId = vf_u16("pid") & 0x7fff;
    frame(pk, Codec::VP9, 1, 1u << 30);
    vf_assert(pk->mPictureId == ((g_pid + 1) & 0x7fff), "the next picture's id");
}
namespace {
void audio(const RtpPacket& p)
{
    vf_assert(p.getPayload().size() == g_fn, "the whole frame");
    if (g_k < g_fn) { vf_assert(p.getPayload().data()[g_k] == g_f[g_k], "its bytes"); vf_cover("bytes"); }
    vf_assert(!p.getMarker() && p.getPaddingSize() == 0, "no marker, no padding");
    g_pos = g_fn;
}
}
VF_HARNESS(opus)
{
    vfc_packetizer(audio); 
    auto t = makeTrack(TrackSpec{ 1, 2, 96, 97 }, Codec::Opus, 48000);
    auto pk = new PacketizerOpus(t);
    g_limit = 64;
    g_fn = vf_range(1, 1200 - 12 - 64 - 260, "size");
    ByteBuffer f; f.mBuf = g_f = (uint8_t*)vf_bytes(g_fn, "frame"); f.mLen = f.mCap = g_fn;
    g_pos = 0; g_k = vf_range(0, 1200, "k");
    run(pk, f, [&](){ vf_assert(g_n == 1, "one packet"); });
    f.mBuf = nullptr; f.mLen = f.mCap = 0;
}
// the size left for the payload, for all sizes of padding and extension
namespace { struct Peek : PacketizerVideo { static size_t adj(size_t b, size_t p, const RtpExtension& e) { return adjustPacketSize(b, p, e); } }; }
VF_HARNESS(adjust)
{
    vfc_bytebuf();
    const uint64_t basic = vf_range(1100, 1200, "basic"), pad = vf_u8("padding");
    const uint64_t e = vf_range(0, 255, "ext");
    RtpExtension x;
    if (e > 0) { x.mId = 0x1000; x.mData.mBuf = (uint8_t*)vf_bytes(e, "x"); x.mData.mLen = x.mData.mCap = e; }
    const uint64_t r = Peek::adj(basic, pad, x);
    vf_assert(r + pad + x.size() <= basic, "padding and extension fit beside the payload");
    vf_assert(r + pad + x.size() == basic, "no room is wasted");
    vf_cover("end");
    x.mData.mBuf = nullptr; x.mData.mLen = x.mData.mCap = 0;
}
