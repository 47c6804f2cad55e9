// A real Track (its collaborators are real; only the random generator is an assumed contract).
#pragma once
#include "stub_random.h"
#include "srtc/track.h"
#include "srtc/media.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"
#include <memory>
namespace {
struct TrackSpec { uint32_t ssrc, rtxSsrc; uint8_t pt, rtxPt; };
inline std::shared_ptr<srtc::Track> makeTrack(const TrackSpec& s, srtc::Codec codec = srtc::Codec::H264, uint32_t rate = 90000)
{
    return std::make_shared<srtc::Track>(nullptr, srtc::Direction::Publish, s.ssrc, s.pt, s.rtxSsrc, s.rtxPt, codec, nullptr, nullptr, rate, true, true);
}
inline TrackSpec anyTrack() { TrackSpec s; s.ssrc = vf_u32("ssrc"); s.rtxSsrc = vf_u32("rtxssrc"); s.pt = vf_u8("pt") & 127; s.rtxPt = vf_u8("rtxpt") & 127; return s; }
}
