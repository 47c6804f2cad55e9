// PROPERTY: C25
// TUS: src/rtp_packet_source.cpp
// ASSUME: fewer than 2^32-1 packets per packet source (the counter of generated packets is 32 bits wide)
// Outgoing sequence numbers: consecutive modulo 2^16, and (rollover, sequence) never repeats.
#include "vf.h"
#include "stub_random.h"
#include "srtc/rtp_packet_source.h"
#include <new>
using namespace srtc;
VF_HARNESS(sequence_step)
{
    // arbitrary state after at least one packet
    const uint32_t ssrc = vf_u32("ssrc"); const uint8_t pt = vf_u8("pt");
    RtpPacketSource src(ssrc, pt);
    auto s0 = src.getNextSequence();
    vf_assert(s0.first == 0, "starts without rollover");
    vf_havoc((void*)&src.mNextSequence, sizeof(src.mNextSequence), "seq");
    vf_havoc((void*)&src.mRollover, sizeof(src.mRollover), "roc");
    const uint64_t gen = vf_u64("generated");
    vf_assume(gen >= 1 && gen < 0xffffffffu);
    src.mGeneratedCount = gen;
    const uint32_t roc = src.mRollover; const uint16_t seq = src.mNextSequence;
    vf_assume(roc < 0xffffffffu);
    const auto n = src.getNextSequence();
    vf_assert(n.second == (uint16_t)(seq + 1), "next sequence number");
    vf_assert(((uint64_t)n.first << 16 | n.second) == ((uint64_t)roc << 16 | seq) + 1, "extended sequence number grows by exactly one");
    vf_assert(src.getSSRC() == ssrc && src.getPayloadId() == pt, "identity is kept");
    if (n.second == 0) vf_cover("rollover"); else vf_cover("plain");
}
VF_HARNESS(sequence_start)
{
    RtpPacketSource src(vf_u32("ssrc"), vf_u8("pt"));
    uint64_t prev = 0;
    for (int i = 0; i < 4; i++) {
        const auto n = src.getNextSequence();
        const uint64_t x = (uint64_t)n.first << 16 | n.second;
        if (i == 0) vf_assert(n.first == 0 && n.second < 0x8000, "starts in the first half of the sequence space");
        else vf_assert(x == prev + 1, "consecutive from the start");
        prev = x;
    }
    src.clear();
    const auto n = src.getNextSequence();
    vf_assert(n.first == 0 && n.second < 0x8000, "clear starts afresh");
    vf_cover("end");
}
