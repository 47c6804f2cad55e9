// What is common to the packetizers: a contract for header extensions and padding, and every packet is checked as it is added.
#pragma once
#include "track_util.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_extension.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/packetizer.h"
#include "srtc/packetizer_video.h"
#include <new>
#include <memory>
#include <vector>
namespace {
using srtc::RtpPacket; using srtc::RtpExtension; using srtc::RtpExtensionSource; using srtc::ByteBuffer; using srtc::Track;
uint32_t g_n;          // packets so far
bool g_numbered = true; // packets of a frame are numbered
bool g_marked;         // the frame's last packet was made
uint64_t g_limit;      // bytes other than the payload's (SRTP)
bool g_taken; // a sequence number was taken for the next packet
uint32_t g_roll; uint16_t g_seq; uint32_t g_ts;
void (*g_check)(const RtpPacket&);
typedef std::shared_ptr<Track> TrackP;
typedef std::vector<std::shared_ptr<RtpExtensionSource>> Sources;
// Under the verifier an extension is represented by its size in a packet: a multiple of four (rtppacket.cpp, C04, has the real one)
uint64_t g_ext; int64_t g_fixedExt = -1, g_fixedPad = -1;
size_t ext_size(const RtpExtension* self) { return self->mData.mLen ? g_ext : 0; }
RtpExtension build_ext(const TrackP&, const Sources&, bool, unsigned int number)
{
    vf_assert(!g_numbered || number == (unsigned)g_n, "extensions are asked for with the number of the packet");
    ByteBuffer b;
    if (g_fixedExt >= 0) g_ext = g_fixedExt;
    else { g_ext = 4 * (uint64_t)vf_any_u8(); vf_assume(g_ext <= 260); }
    if (g_ext > 0) { b.mBuf = new uint8_t[1]; b.mBuf[0] = 0; b.mLen = b.mCap = 1; }
    return RtpExtension(0x1000, std::move(b));
}
// proved in packetize.cpp (adjust): what is left beside padding and extension
size_t adjust_size(size_t basic, size_t padding, const RtpExtension& x)
{
    vf_assert(basic >= 1100 && basic <= 1200 && padding <= 255 && x.size() <= 260, "sizes as they are in practice");
    return basic - padding - x.size();
}
uint8_t get_pad(const TrackP&, const Sources&, size_t) { return g_fixedPad >= 0 ? (uint8_t)g_fixedPad : vf_any_u8(); }
std::pair<uint32_t, uint16_t> next_seq(void*)
{
    vf_assert(!g_taken, "one sequence number is taken for each packet");
    g_taken = true;
    return { g_roll, (uint16_t)(g_seq + g_n) };
}
uint32_t frame_ts(void*, int64_t) { return g_ts; }
void push(void*, std::shared_ptr<RtpPacket>&& pp)
{
    const RtpPacket& p = *pp;
    vf_assert(!g_marked, "nothing after the packet with the marker");
    vf_assert(g_taken && p.getSequence() == (uint16_t)(g_seq + g_n), "consecutive sequence numbers");
    g_taken = false;
    vf_assert(p.getRollover() == g_roll, "with their rollover count");
    vf_assert(p.getTimestamp() == g_ts, "the frame's timestamp");
    vf_assert(p.getSSRC() == 1 && p.getPayloadId() == 96, "the track's identifiers");
    vf_assert(RtpPacket::kHeaderSize + p.getExtension().size() + p.getPayload().size() + p.getPaddingSize() + g_limit <= RtpPacket::kMaxPayloadSize, "no more than the size limit");
    g_check(p);
    g_n++; g_ext = 0;
}
extern "C" __attribute__((noinline, used)) void vfc_packetizer(void (*check)(const RtpPacket&))
{
    vfc_bytebuf();
    g_check = check; g_n = 0; g_marked = false;
    vf_stub("srtc::Packetizer::buildExtension(std::shared_ptr<srtc::Track> const&, std::vector<std::shared_ptr<srtc::RtpExtensionSource>, std::allocator<std::shared_ptr<srtc::RtpExtensionSource>>> const&, bool, unsigned int)", (void*)&build_ext);
    vf_stub("srtc::PacketizerVideo::getPadding(std::shared_ptr<srtc::Track> const&, std::vector<std::shared_ptr<srtc::RtpExtensionSource>, std::allocator<std::shared_ptr<srtc::RtpExtensionSource>>> const&, unsigned long)", (void*)&get_pad);
    vf_stub("srtc::PacketizerVideo::adjustPacketSize(unsigned long, unsigned long, srtc::RtpExtension const&)", (void*)&adjust_size);
    vf_unroll("loop-locals", 1);
    vf_stub("srtc::RtpExtension::size() const", (void*)&ext_size);
    vf_stub("srtc::RtpPacketSource::getNextSequence()", (void*)&next_seq);
    vf_stub("srtc::RtpTimeSource::getFrameTimestamp(long)", (void*)&frame_ts);
    vf_stub("std::vector<std::shared_ptr<srtc::RtpPacket>, std::allocator<std::shared_ptr<srtc::RtpPacket>>>::push_back(std::shared_ptr<srtc::RtpPacket>&&)", (void*)&push);
    g_roll = vf_u32("rollover"); g_seq = vf_u16("seq"); g_ts = vf_u32("ts");
    g_limit = vf_range(0, 64, "overhead");
}
// natively: a source of extensions and padding of any size
struct Source : RtpExtensionSource {
    uint8_t getPadding(const TrackP&, size_t) override { return vf_u8("pad"); }
    bool wantsExtension(const TrackP&, bool, unsigned int) const override { return vf_bool("want"); }
    void addExtension(srtc::RtpExtensionBuilder& b, const TrackP&, bool, unsigned int) override
    {
        const uint64_t n = vf_range(1, 200, "ext");
        std::vector<uint8_t> d(n, 7);
        b.addBinaryValue(1, ByteBuffer(d.data(), d.size()));
    }
};
template <class F> void run(srtc::Packetizer* pk, const ByteBuffer& f, F after)
{
    Sources s;
    if (vf_mode() == 0) s.push_back(std::make_shared<Source>());
    const auto r = pk->generate(s, g_limit, 0, f);
    if (vf_mode() == 0) {
        // replayed: what the real functions returned
        auto t = pk->getTrack();
        if (!r.empty()) { g_seq = r[0]->getSequence(); g_roll = r[0]->getRollover(); g_ts = r[0]->getTimestamp(); }
        for (auto& p : r) { g_taken = true; push(nullptr, std::shared_ptr<RtpPacket>(p)); }
    }
    vf_assert(!g_taken, "no sequence number is lost");
    after();
}
}
