// PROPERTY: C09
// TUS: src/rtcp_packet.cpp src/rtcp_packet_multi.cpp src/rtcp_packet_source.cpp src/byte_buffer.cpp
// Compound RTCP against RFC 3550 written out on the bytes.
#include "vf.h"
#include "bytebuf_model.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_multi.h"
#include "srtc/rtcp_packet_source.h"
#include <list>
using namespace srtc;
namespace {
uint32_t be16(const uint8_t* p) { return p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
const uint8_t* g_d; uint64_t g_n, g_pos, g_k, g_len0; bool g_done;
// the next sub-packet starts at g_pos: check what the code made of it and move on
bool well(uint64_t pos) { return pos + 8 <= g_n && be16(g_d + pos + 2) >= 1 && pos + 4 * (be16(g_d + pos + 2) + 1) <= g_n; }
void check(const RtcpPacket& p)
{
    vf_assert(well(g_pos), "a sub-packet is returned only for complete, well-formed bytes");
    const uint8_t* h = g_d + g_pos;
    const uint64_t len = 4 * (uint64_t)(be16(h + 2) + 1) - 8;
    uint64_t want = len;
    if ((h[0] & 0x20) && len > 0 && h[8 + len - 1] <= len) want = len - h[8 + len - 1];
    vf_assert(p.getRC() == (h[0] & 31) && p.getPayloadId() == h[1] && p.getSSRC() == be32(h + 4), "count, type and SSRC");
    vf_assert(p.getPayload().size() == want, "payload size from the length field, without padding");
    if (g_k < want) { vf_assert(p.getPayload().data()[g_k] == h[8 + g_k], "payload bytes"); vf_cover("payload"); }
    g_pos += len + 8;
}
// appending to the result list: where the packets are checked one by one (unbounded)
struct Node { Node *next, *prev; std::shared_ptr<RtcpPacket> p; };
void on_hook(Node* self, Node*) { check(*self->p); }
bool pos_ok() { return g_pos <= g_n; }
}
VF_HARNESS(rtcp_split)
{
    vfc_bytebuf();
    vf_stub("std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base*)", (void*)&on_hook);
    vf_unroll("fromUdpPacket", -1);
    vf_inv0(pos_ok);
    g_n = vf_range(0, 65535, "n"); g_k = vf_range(0, 65535, "k"); g_pos = 0;
    auto d = (const uint8_t*)vf_bytes(g_n, "data");
    ByteBuffer buf(d, g_n);
    g_d = d;
    auto list = RtcpPacket::fromUdpPacket(buf);
    if (vf_mode() == 0) for (auto& p : list) check(*p);
    vf_assert(!well(g_pos), "every complete sub-packet is returned");
    vf_cover("end");
}
VF_HARNESS(rtcp_generate)
{
    vfc_bytebuf();
    const uint64_t n = vf_range(0, 262132, "n"), k = vf_range(0, 262140, "k");
    auto d = (const uint8_t*)vf_bytes(n, "payload");
    const uint32_t ssrc = vf_u32("ssrc"); const uint8_t rc = vf_u8("rc") & 31, pt = vf_u8("pt");
    RtcpPacket p(ssrc, rc, pt, ByteBuffer(d, n));
    const auto b = p.generate();
    const uint64_t len = (n + 8 + 3) / 4 * 4;
    vf_assert(b.size() == len, "a whole number of words");
    const uint8_t* o = b.data();
    vf_assert(o[0] == (0x80 | rc) && o[1] == pt && be16(o + 2) == len / 4 - 1 && be32(o + 4) == ssrc, "version, count, type, length, SSRC");
    if (k < n) { vf_assert(o[8 + k] == d[k], "payload"); vf_cover("payload"); }
    else if (8 + k < len) { vf_assert(o[8 + k] == 0, "padding"); vf_cover("padding"); }
}
VF_HARNESS(rtcp_roundtrip)
{
    // compound of two generated packets, payloads a whole number of words: split gives them back
    vfc_bytebuf();
    vf_unroll("fromUdpPacket", 5);
    const uint64_t n = vf_range(0, 375, "nw") << 2, m = vf_range(0, 375, "mw") << 2, k = vf_range(0, 1500, "k");
    auto d = (const uint8_t*)vf_bytes(n, "payload");
    auto e = (const uint8_t*)vf_bytes(m, "payload2");
    const uint32_t ssrc = vf_u32("ssrc"); const uint8_t rc = vf_u8("rc") & 31, pt = vf_u8("pt"), pt2 = vf_u8("pt2");
    std::vector<std::shared_ptr<RtcpPacket>> v;
    v.push_back(std::make_shared<RtcpPacket>(ssrc, rc, pt, ByteBuffer(d, n)));
    v.push_back(std::make_shared<RtcpPacket>(ssrc + 1, 0, pt2, ByteBuffer(e, m)));
    RtcpPacketMulti multi(v);
    const auto b = multi.generate();
    vf_assert(b.size() == n + m + 16, "compound size");
    auto list = RtcpPacket::fromUdpPacket(b);
    vf_assert(list.size() == 2, "two packets");
    const auto& x = *list.front(); const auto& y = *list.back();
    vf_assert(x.getSSRC() == ssrc && x.getRC() == rc && x.getPayloadId() == pt && x.getPayload().size() == n, "first header");
    vf_assert(y.getSSRC() == ssrc + 1 && y.getRC() == 0 && y.getPayloadId() == pt2 && y.getPayload().size() == m, "second header");
    if (k < n) vf_assert(x.getPayload().data()[k] == d[k], "first payload");
    if (k < m) { vf_assert(y.getPayload().data()[k] == e[k], "second payload"); vf_cover("payload"); }
}
VF_HARNESS(rtcp_index)
{
    RtcpPacketSource s(vf_u32("ssrc"));
    s.mNextSequence = vf_u32("seq");
    const uint32_t was = s.mNextSequence;
    vf_assume(was < 0x7fffffff); // RFC 3711 3.4: 31-bit SRTCP index, the session is re-keyed before it is used up
    vf_assert(s.getNextSequence() == was + 1 && s.getNextSequence() == was + 2, "consecutive");
    s.clear();
    vf_assert(s.getNextSequence() == 1, "restarts");
}
