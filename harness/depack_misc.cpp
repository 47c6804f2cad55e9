// PROPERTY: C19
// TUS: src/depacketizer_vp8.cpp src/depacketizer_vp9.cpp src/depacketizer_opus.cpp src/depacketizer_video.cpp src/depacketizer.cpp src/codec_vp9.cpp src/bit_reader.cpp src/byte_buffer.cpp src/track.cpp src/rtp_extension.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp
// OPT: vp9_frame3 tier=thorough
// OPT: vp8_frame2 cost=30
// ASSUME: RandomGenerator::next returns a value of its interval
// VP8 (RFC 7741), VP9 (RFC 9628) and Opus depacketizers.
#include "vf.h"
#include "bytebuf_model.h"
#include "track_util.h"
#include "stub_random.h"
#include "srtc/depacketizer_vp8.h"
#include "srtc/depacketizer_vp9.h"
#include "srtc/depacketizer_opus.h"
#include "srtc/codec_vp9.h"
#include <new>
using namespace srtc;
namespace {
JitterBufferItem* item(const char* nm, bool marker, uint64_t max = 65535)
{
    auto it = new JitterBufferItem();
    const uint64_t n = vf_range(0, max, nm);
    it->payload.mBuf = (uint8_t*)vf_bytes(n, nm); it->payload.mLen = it->payload.mCap = n;
    it->received = true; it->marker = marker;
    return it;
}
// size of the VP8 payload descriptor, or -1 if it is cut off
int64_t vp8desc(const uint8_t* d, uint64_t n)
{
    if (n < 1) return -1;
    if (!(d[0] & 0x80)) return 1;
    if (n < 2) return -1;
    uint64_t p = 2;
    const uint8_t x = d[1];
    if (x & 0x80) { if (p >= n) return -1; p += (d[p] & 0x80) ? 2 : 1; if (p > n) return -1; }
    if (x & 0x40) { if (p >= n) return -1; p++; }
    if (x & 0x30) { if (p >= n) return -1; p++; }
    return (int64_t)p;
}
struct Part { const uint8_t* p; uint64_t n; };
uint8_t at(const Part* v, int c, uint64_t k) { for (int i = 0; i < c; i++) { if (k < v[i].n) return v[i].p[k]; k -= v[i].n; } return 0; }
template <typename DP>
void check(DP* dp, std::vector<const JitterBufferItem*>& in, const Part* v, int c, bool bad, bool seen, bool key, bool marker)
{
    std::vector<ByteBuffer> out;
    dp->extract(out, in);
    uint64_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].n;
    if (bad || n == 0) { vf_assert(out.empty(), "nothing is returned when a descriptor is cut off"); vf_assert(dp->mSeenKeyFrame == seen, "state unchanged"); vf_cover("malformed"); return; }
    vf_assert(dp->mSeenKeyFrame == (seen || key), "waits for a key frame");
    const bool want = (seen || key) && marker;
    vf_assert(out.size() == (want ? 1u : 0u), "one frame at the marker, from the first key frame on");
    if (!want) { vf_cover("no frame"); return; }
    vf_assert(out[0].size() == n, "all of the payload and nothing else");
    const uint64_t k = vf_range(0, 65535, "k");
    uint64_t base = 0;
    const uint64_t which = vf_range(0, 2, "part"); // any one of the parts
    for (int i = 0; i < c; i++) {
        if ((uint64_t)i == which && k < v[i].n) { vf_assert(out[0].data()[base + k] == v[i].p[k], "the payload bytes in order"); vf_cover("bytes"); }
        base += v[i].n;
    }
    dp->reset();
    vf_assert(!dp->mSeenKeyFrame, "reset waits for a key frame again");
}
void vp8(int count)
{
    auto dp = new DepacketizerVP8(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::VP8));
    const bool seen = vf_bool("seen"), marker = count > 1 || vf_bool("marker");
    dp->mSeenKeyFrame = seen;
    std::vector<const JitterBufferItem*> in;
    Part v[3] = {}; bool bad = false;
    for (int i = 0; i < count; i++) {
        auto it = item("p", i == count - 1 && marker);
        in.push_back(it);
        if (i < count - 1) {
            // earlier packets: with or without a picture id, nothing else; the last one: anything
            const uint8_t* b = it->payload.data();
            vf_assume(it->payload.size() >= 4 && (!(b[0] & 0x80) || (b[1] & 0x70) == 0));
        }
        const int64_t d = vp8desc(it->payload.data(), it->payload.size());
        if (d < 0) bad = true;
        else v[i] = { it->payload.data() + d, it->payload.size() - (uint64_t)d };
    }
    uint64_t n = 0;
    for (int i = 0; i < count; i++) n += v[i].n;
    const bool key = n >= 3 && !(at(v, count, 0) & 1);
    check(dp, in, v, count, bad, seen, key, marker);
}
// contract of parsePayloadDescriptor and isKeyFrame (proved in C17)
uint64_t g_off[4]; bool g_ok[4]; int g_calls; bool g_key;
bool parse_contract(const uint8_t* d, size_t n, vp9::PayloadDescriptor*, const uint8_t** od, size_t* on)
{
    vf_assert(n == 0 || (vf_live(d) && vf_offset(d) + n <= vf_objsize(d)), "the descriptor is parsed inside the packet");
    const int i = g_calls++;
    vf_assert(i < 4, "each packet is parsed once");
    if (!g_ok[i] || g_off[i] > n) return false;
    *od = d + g_off[i]; *on = n - g_off[i];
    return true;
}
void vp9f(int count)
{
    auto dp = new DepacketizerVP9(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::VP9));
    const bool seen = vf_bool("seen"), marker = vf_bool("marker");
    dp->mSeenKeyFrame = seen;
    std::vector<const JitterBufferItem*> in;
    Part v[3] = {}; bool bad = false;
    g_calls = 0;
    for (int i = 0; i < count; i++) {
        auto it = item("p", i == count - 1 && marker);
        in.push_back(it);
        if (vf_mode() == 1) {
            g_ok[i] = vf_any_bool(); g_off[i] = vf_any_u16();
            if (!g_ok[i] || g_off[i] > it->payload.size()) bad = true;
            else v[i] = { it->payload.data() + g_off[i], it->payload.size() - g_off[i] };
        } else {
            vp9::PayloadDescriptor ds = {};
            const uint8_t* p = nullptr; size_t n = 0;
            if (!vp9::parsePayloadDescriptor(it->payload.data(), it->payload.size(), ds, p, n)) bad = true; else v[i] = { p, n };
        }
    }
    // profile 0-2 uncompressed header: frame marker 2, profile bits, show_existing 0, frame type 0
    uint64_t n = 0;
    for (int i = 0; i < count; i++) n += v[i].n;
    bool key = false;
    if (!bad && n > 0) {
        ByteBuffer whole;
        for (int i = 0; i < count; i++) whole.append(v[i].p, v[i].n);
        key = vp9::isKeyFrame(whole.data(), whole.size());
    }
    check(dp, in, v, count, bad, seen, key, marker);
}
}
VF_HARNESS(vp8_frame1) { vfc_bytebuf(); vf_unroll("*", 12); vf_bounded("frames of one packet"); vp8(1); }
VF_HARNESS(vp8_frame2) { vfc_bytebuf(); vf_unroll("*", 12); vf_bounded("frames of two packets"); vp8(2); }
VF_HARNESS(vp9_frame1)
{
    vfc_bytebuf(); vf_unroll("*", 12); vf_bounded("frames of one packet");
    vf_stub("srtc::vp9::parsePayloadDescriptor(unsigned char const*, unsigned long, srtc::vp9::PayloadDescriptor&, unsigned char const*&, unsigned long&)", (void*)&parse_contract);
    vp9f(1);
}
VF_HARNESS(vp9_frame2)
{
    vfc_bytebuf(); vf_unroll("*", 12); vf_bounded("frames of two packets");
    vf_stub("srtc::vp9::parsePayloadDescriptor(unsigned char const*, unsigned long, srtc::vp9::PayloadDescriptor&, unsigned char const*&, unsigned long&)", (void*)&parse_contract);
    vp9f(2);
}
VF_HARNESS(vp9_frame3)
{
    vfc_bytebuf(); vf_unroll("*", 12); vf_bounded("frames of three packets");
    vf_stub("srtc::vp9::parsePayloadDescriptor(unsigned char const*, unsigned long, srtc::vp9::PayloadDescriptor&, unsigned char const*&, unsigned long&)", (void*)&parse_contract);
    vp9f(3);
}
VF_HARNESS(vp8_vp9_start)
{
    DepacketizerVP8 a(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::VP8));
    DepacketizerVP9 b(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::VP9));
    const bool marker = vf_bool("marker");
    auto it = item("p", marker);
    const uint64_t n = it->payload.size(); const uint8_t* d = it->payload.data();
    // start of the first partition (S and PID 0) / start of a frame (B)
    const bool s8 = n > 0 && (d[0] & 0x17) == 0x10, s9 = n > 0 && (d[0] & 0x08);
    auto kind = [&](bool s) { return s ? (marker ? PacketKind::Standalone : PacketKind::Start) : (marker ? PacketKind::End : PacketKind::Middle); };
    vf_assert(a.getPacketKind(it->payload, marker) == kind(s8), "VP8 frame start");
    vf_assert(b.getPacketKind(it->payload, marker) == kind(s9), "VP9 frame start");
    if (s8) vf_cover("start");
}
VF_HARNESS(opus)
{
    DepacketizerOpus o(makeTrack(TrackSpec{ 1, 96, 2, 97 }, Codec::Opus));
    auto it = item("p", vf_bool("marker"));
    vf_assert(o.getPacketKind(it->payload, it->marker) == PacketKind::Standalone, "every packet is a frame");
    std::vector<const JitterBufferItem*> in; in.push_back(it);
    std::vector<ByteBuffer> out;
    o.extract(out, in);
    const uint64_t n = it->payload.size(), k = vf_range(0, 70000, "k");
    vf_assert(out.size() == (n > 0 ? 1u : 0u), "one frame for each packet that is not empty");
    if (n > 0) { vf_assert(out[0].size() == n, "size"); if (k < n) { vf_assert(out[0].data()[k] == it->payload.data()[k], "bytes"); vf_cover("bytes"); } }
}
