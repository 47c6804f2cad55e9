// PROPERTY: C22
// TUS: src/send_rtp_history.cpp src/rtp_packet.cpp src/rtp_extension.cpp src/track.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp
// ASSUME: any bucket policy of std::unordered_map gives the same map
// The history of sent packets that retransmissions are served from.
#include "vf.h"
#include "stub_random.h"
#include "srtc/rtp_packet.h"
#include "srtc/send_rtp_history.h"
#include <memory>
using namespace srtc;
namespace {
constexpr uint64_t kMax = 1600;
alignas(RtpPacket) char g_mem[kMax][sizeof(RtpPacket)];
uint64_t g_n;
std::pair<bool, size_t> oneBucket(const void*, size_t, size_t, size_t) { return { false, 0 }; }
std::shared_ptr<RtpPacket> packet(uint32_t ssrc, uint16_t seq) // only its SSRC and sequence number matter here
{
    auto p = (RtpPacket*)g_mem[g_n++];
    *(uint32_t*)&p->mSSRC = ssrc;
    *(uint16_t*)&p->mSequence = seq;
    return std::shared_ptr<RtpPacket>(std::shared_ptr<void>(), p);
}
}
VF_HARNESS(history_any_order)
{
    // whatever was sent: numbers and streams in any order (a number sent again means the newer packet)
    vf_stub("std::__detail::_Prime_rehash_policy::_M_need_rehash(unsigned long, unsigned long, unsigned long) const", (void*)&oneBucket);
    vf_unroll("*", 20);
    SendRtpHistory h;
    g_n = 0;
    const uint64_t n = vf_case(vf_range(0, 3, "n"), 0, 3);
    std::shared_ptr<RtpPacket> sent[4];
    for (uint64_t i = 0; i < n; i++) { sent[i] = packet(vf_u32("ssrc"), vf_u16("seq")); h.save(sent[i]); }
    const uint32_t ssrc = vf_u32("qs"); const uint16_t seq = vf_u16("qq");
    const auto f = h.find(ssrc, seq);
    RtpPacket* want = nullptr;
    for (uint64_t i = 0; i < n; i++) if (vf_fork(sent[i]->getSSRC() == ssrc && sent[i]->getSequence() == seq)) want = sent[i].get();
    vf_assert(f.get() == want, "exactly the packet with this SSRC and sequence number");
    if (want) vf_cover("found"); else vf_cover("not sent");
    vf_bounded("three packets");
}
VF_HARNESS(history_consecutive)
{
    // two streams, consecutive numbers from each of the starting points, more packets than are kept
    vf_unroll("*", 4000);
    static const uint16_t base[] = { 0, 40000, 64700, 65535 };
    const uint16_t b = base[vf_case(vf_range(0, 3, "b"), 0, 3)];
    constexpr uint32_t A = 0x11223344, B = 0xfffffff1;
    SendRtpHistory h;
    g_n = 0;
    uint16_t na = 0, nb = 0;
    RtpPacket *pa[1100], *pb[600]; // by number since the start
    bool now = true, newest = true, steady = true;
    for (uint32_t i = 0; i < 1500; i++) {
        const bool second = i % 3 == 2;
        const auto p = packet(second ? B : A, second ? (uint16_t)(b + 7 + nb) : (uint16_t)(b + na));
        (second ? pb[nb] : pa[na]) = p.get();
        (second ? nb : na)++;
        h.save(p);
        now &= h.find(p->getSSRC(), p->getSequence()) == p;
        if (na > 100) newest &= h.find(A, (uint16_t)(b + na - 100)).get() == pa[na - 100];
        if (nb > 100) steady &= h.find(B, (uint16_t)(b + 7 + nb - 100)).get() == pb[nb - 100];
    }
    vf_assert(now, "a packet is found once sent");
    vf_assert(newest && steady, "recent packets are found, at any time");
    bool recent = true, right = true, other = true;
    for (uint32_t k = 0; k < na; k++) {
        const auto f = h.find(A, (uint16_t)(b + k));
        if (k + 256u >= na) recent &= f != nullptr;
        right &= f == nullptr || f.get() == pa[k];
        if (k >= (uint32_t)nb + 7) other &= h.find(B, (uint16_t)(b + k)) == nullptr; // not sent on that stream
    }
    for (uint32_t k = 0; k < nb; k++) {
        const auto f = h.find(B, (uint16_t)(b + 7 + k));
        if (k + 256u >= nb) recent &= f != nullptr;
        right &= f == nullptr || f.get() == pb[k];
        other &= h.find(A ^ 1, (uint16_t)(b + k)) == nullptr;
    }
    for (uint32_t k = 1; k < 400; k++) other &= h.find(A, (uint16_t)(b - k)) == nullptr && h.find(A, (uint16_t)(b + na - 1 + k)) == nullptr && h.find(B, (uint16_t)(b + 7 + nb - 1 + k)) == nullptr;
    vf_assert(recent, "the last 256 packets of each stream are found");
    vf_assert(right, "what is found is the packet that was sent under this number");
    vf_assert(other, "nothing is found that was not sent");
    // bounded memory, list and index agree
    bool sizes = true;
    for (auto& t : h.mTrackMap) sizes &= t.second.packetList.size() <= 1024 && t.second.packetMap.size() == t.second.packetList.size();
    vf_assert(sizes, "the history is bounded and its index names the packets it keeps");
    vf_cover("end");
    vf_bounded("1500 packets of two streams from four starting numbers");
}
namespace {
RtpPacket* g_sent[600];
void fill(SendRtpHistory& h, uint16_t b, uint32_t n) { g_n = 0; for (uint32_t i = 0; i < n; i++) { const auto p = packet(5, (uint16_t)(b + i)); g_sent[i] = p.get(); h.save(p); } }
}
// From every starting number, until the history is full and the oldest packets have been pushed out; from there on every
// further packet repeats the last step with the starting number one higher, so this is every history of one stream.
#define SETUP() \
    vf_stub("std::__detail::_Prime_rehash_policy::_M_need_rehash(unsigned long, unsigned long, unsigned long) const", (void*)&oneBucket); \
    vf_unroll("*", 4000); \
    SendRtpHistory h; \
    const uint16_t b = vf_u16("base");
VF_HARNESS(history_recent)
{
    SETUP();
    fill(h, b, 530);
    const uint64_t k = vf_case(vf_range(0, 8, "k"), 0, 8);
    const auto j = k == 0 ? 529 : 529 - 32 * k;
    vf_assert(h.find(5, (uint16_t)(b + j)).get() == g_sent[j], "recent packets are found");
    vf_assert(!h.find(6, (uint16_t)(b + j)), "in their own stream only");
    vf_cover("end");
}
VF_HARNESS(history_never_sent)
{
    SETUP();
    fill(h, b, 514);
    const uint16_t q = vf_u16("q");
    vf_assume((uint16_t)(q - b) >= 514);
    vf_assert(!h.find(5, q), "nothing is found that was not sent");
    vf_cover("end");
}
VF_HARNESS(history_exact)
{
    SETUP();
    fill(h, b, 530);
    const uint64_t k = vf_case(vf_range(0, 26, "k"), 0, 26);
    const uint16_t j = k < 24 ? 23 * k : k == 24 ? 17 : k == 25 ? 18 : 19;
    const auto f = h.find(5, (uint16_t)(b + j));
    vf_assert(!f || f.get() == g_sent[j], "what is found is the packet that was sent under this number");
    if (f) vf_cover("found"); else vf_cover("forgotten");
}
