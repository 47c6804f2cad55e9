// PROPERTY: C21
// TUS: src/byte_buffer.cpp src/util.cpp
// NATIVE: no
// Received NACK items (RFC 4585 6.2.1): which packets are looked up for retransmission.
#include "peer_util.h"
namespace {
uint32_t g_ssrc; uint16_t g_x; int g_hits, g_all; bool g_wrong;
std::shared_ptr<RtpPacket> lookup(const SendRtpHistory*, uint32_t ssrc, uint16_t seq)
{
    g_all++;
    if (ssrc != g_ssrc) g_wrong = true;
    if (seq == g_x) g_hits++;
    return nullptr;
}
}
VF_HARNESS(nack_expand)
{
    vf_stub("srtc::SendRtpHistory::find(unsigned int, unsigned short) const", (void*)&lookup);
    auto pc = rawPeer();
    *(void**)&pc->mSendRtpHistory = &g_raw;
    const uint64_t n = vf_case(vf_range(0, 7, "n"), 0, 7);
    auto d = (const uint8_t*)vf_bytes(n, "items");
    g_ssrc = vf_u32("ssrc"); g_x = vf_u16("x"); g_hits = g_all = 0; g_wrong = false;
    const uint64_t items = n / 4;
    int hits = 0, all = 0;
    for (uint64_t i = 0; i < items; i++) {
        const uint16_t pid = (uint16_t)(d[4 * i] << 8 | d[4 * i + 1]), blp = (uint16_t)(d[4 * i + 2] << 8 | d[4 * i + 3]);
        // up to one further packet, at any of the 16 places
        const uint64_t a = vf_range(0, 16, "a"), b = 16;
        vf_assume(blp == (uint16_t)((a < 16 ? 1u << a : 0) | (b < 16 ? 1u << b : 0)));
        const uint16_t dist = (uint16_t)(g_x - pid);
        if (dist == 0 || (dist <= 16 && (blp >> ((dist - 1) & 15) & 1))) hits++;
        all += 1 + (a < 16) + (b < 16 && a != b);
    }
    ByteReader r(d, n);
    pc->onReceivedControlMessage_NACK(g_ssrc, r);
    vf_assert(!g_wrong, "looked up under the SSRC of the message");
    vf_assert(g_hits == hits, "a packet is looked up once for each item that names it");
    vf_assert(g_all == all, "and no other packet is");
    if (items == 1) vf_cover("one item");
    vf_bounded("messages of one item with up to two packets");
}
