// PROPERTY: C12 C13
// TUS: src/sctp/sctp_packet.cpp src/sctp/sctp_packet_builder.cpp src/sctp/sctp_defs.cpp src/byte_buffer.cpp
// SctpPacket and SctpPacketBuilder over an assumed checksum function (its contract is checked in sctp_crc.cpp).
#define SCTP_OWN_CRC
#include "vf.h"
#include "bytebuf_model.h"
#include "sctp_packet.h"
#include "sctp_packet_builder.h"
#include "sctp_crc32.h"
#include <cstring>
using namespace srtc;
using namespace srtc::sctp;
namespace {
// what was given to the checksum since it was started, byte for byte
uint8_t g_in[256];
size_t g_n;
bool g_started, g_other;
uint32_t g_state, g_result;
uint32_t be16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
uint32_t le32(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
}
namespace srtc::sctp {
uint32_t crc32c_update(uint32_t c, const uint8_t* p, size_t n)
{
    if (c == 0xffffffffu && !g_started) { g_started = true; g_n = 0; }
    else if (c != g_state) g_other = true;
    vf_assert(g_n + n <= sizeof(g_in), "harness: room");
    for (size_t i = 0; i < n; i++) g_in[g_n + i] = p[i];
    g_n += n;
    return g_state = vf_u32("state");
}
uint32_t crc32c_finalize(uint32_t c)
{
    if (c != g_state || !g_started) g_other = true;
    g_started = false;
    return g_result = vf_u32("crc");
}
uint32_t crc32c(const uint8_t* p, size_t n)
{
    g_started = false;
    return crc32c_finalize(crc32c_update(0xffffffffu, p, n));
}
}
namespace {
struct Want { uint8_t type, flags; const uint8_t* p; size_t n; };
void parse(uint64_t lo, uint64_t hi)
{
    vfc_bytebuf();
    vf_unroll("*", 80);
    vf_bounded("datagrams of up to 30 bytes");
    const uint64_t n = vf_case(vf_range(lo, hi, "n"), lo, hi);
    auto d = (const uint8_t*)vf_bytes(n, "datagram");
    auto r = SctpPacket::parse(d, n);
    if (n < 12) { vf_assert(!r, "too short for a header"); return; }
    // the checksum was taken over this datagram with zeros in its place
    vf_assert(!g_other && !g_started && g_n == n, "checksum over the whole datagram");
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= g_in[i] == (i >= 8 && i < 12 ? 0 : d[i]);
    vf_assert(same, "the datagram, its checksum field taken as zero");
    if (vf_fork(g_result != le32(d + 8))) { vf_assert(!r, "a wrong checksum is rejected"); vf_cover("wrong"); return; }
    // reference: chunks follow each other, each padded to four bytes
    Want w[8]; int k = 0;
    bool bad = false;
    size_t at = 12;
    while (at + 4 <= n) {
        const size_t len = be16(d + at + 2);
        if (vf_fork(len < 4 || at + len > n)) { bad = true; break; }
        const size_t l = vf_case(len, 4, n - at);
        w[k++] = { d[at], d[at + 1], d + at + 4, l - 4 };
        at += (l + 3) / 4 * 4;
    }
    if (bad) { vf_assert(!r, "a chunk that does not fit is rejected"); return; }
    vf_assert(r.has_value(), "accepted");
    vf_assert(r->srcPort() == be16(d) && r->dstPort() == be16(d + 2) && r->verificationTag() == be32(d + 4), "header");
    vf_assert(r->chunks().size() == (size_t)k, "all chunks");
    for (int i = 0; i < k; i++) {
        auto& c = r->chunks()[i];
        vf_assert(c.type == w[i].type && c.flags == w[i].flags && c.data == w[i].p && c.size == w[i].n, "chunk: its type, flags and content, in order");
    }
    if (k >= 1) vf_cover("accepted");
}
}
VF_HARNESS(scpkt_parse_small) { parse(0, 19); }
VF_HARNESS(scpkt_parse) { parse(20, 26); }
VF_HARNESS(scpkt_parse_more) { parse(27, 30); }
VF_HARNESS(scpkt_build)
{
    vfc_bytebuf();
    vf_unroll("*", 80);
    vf_bounded("two chunks with bodies of up to 9 bytes");
    const uint16_t sp = vf_u16("src"), dp = vf_u16("dst");
    const uint32_t tag = vf_u32("tag");
    const uint64_t n1 = vf_case(vf_range(0, 9, "n1"), 0, 9), n2 = vf_case(vf_range(0, 9, "n2"), 0, 9);
    const uint8_t t1 = vf_u8("t1"), f1 = vf_u8("f1"), t2 = vf_u8("t2"), f2 = vf_u8("f2");
    auto b1 = (const uint8_t*)vf_bytes(n1, "b1"), b2 = (const uint8_t*)vf_bytes(n2, "b2");
    SctpPacketBuilder b(sp, dp, tag);
    b.addChunk(t1, f1, b1, n1);
    ByteBuffer second(b2, n2);
    b.addChunk(t2, f2, second);
    const auto out = b.build();
    const size_t p1 = (n1 + 3) / 4 * 4, p2 = (n2 + 3) / 4 * 4, n = 12 + 4 + p1 + 4 + p2;
    vf_assert(out.size() == n, "header and chunks, padded");
    auto d = out.data();
    vf_assert(be16(d) == sp && be16(d + 2) == dp && be32(d + 4) == tag, "header");
    vf_assert(d[12] == t1 && d[13] == f1 && be16(d + 14) == 4 + n1, "first chunk's header: the length is without padding");
    for (size_t i = 0; i < p1; i++) vf_assert(d[16 + i] == (i < n1 ? b1[i] : 0), "first chunk's body and zeros");
    auto e = d + 16 + p1;
    vf_assert(e[0] == t2 && e[1] == f2 && be16(e + 2) == 4 + n2, "second chunk's header");
    for (size_t i = 0; i < p2; i++) vf_assert(e[4 + i] == (i < n2 ? b2[i] : 0), "second chunk's body and zeros");
    vf_assert(!g_other && !g_started && g_n == n, "checksum over the whole packet");
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= g_in[i] == (i >= 8 && i < 12 ? 0 : d[i]);
    vf_assert(same, "with the checksum field taken as zero");
    vf_assert(le32(d + 8) == g_result, "stored where and as the receiver reads it");
    vf_cover("end");
}
