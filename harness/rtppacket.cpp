// PROPERTY: C06 C07
// TUS: src/rtp_packet.cpp src/rtp_extension.cpp src/byte_buffer.cpp src/track.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp
// ASSUME: RandomGenerator::next returns a value of its interval
// RTP packets: parse and generate against RFC 3550 written out on the bytes.
#include "vf.h"
#include "track_util.h"
#include "bytebuf_model.h"
#include "srtc/rtp_packet.h"
using namespace srtc;
namespace {
uint32_t be16(const uint8_t* p) { return p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
}
namespace {
// contract of trimPadding (proved in rtpext.cpp): drops a suffix of the extension data
void trim_contract(RtpExtension* self)
{
    const uint64_t k = vf_any_u64();
    vf_assume(k <= self->mData.size());
    if (self->mId != 0 && !self->mData.empty()) self->mData.resize(k);
}
}
VF_HARNESS(rtp_parse)
{
    vfc_bytebuf();
    vf_stub("srtc::RtpExtension::trimPadding()", (void*)&trim_contract);
    auto ts = anyTrack();
    auto track = makeTrack(ts);
    const uint64_t n = vf_range(0, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "packet");
    if (n >= 12) d[0] = (d[0] & 0xc0) | (uint8_t)vf_case(d[0] & 0x3f, 0, 63);
    ByteBuffer buf(d, n);
    auto pkt = RtpPacket::fromUdpPacket(track, buf);
    // RFC 3550 5.1
    bool ok = n >= 12;
    const uint64_t cc = ok ? d[0] & 15 : 0;
    uint64_t off = 12 + 4 * cc;
    ok = ok && n >= off;
    const bool x = ok && (d[0] & 0x10);
    uint64_t ext = off + 4, extlen = 0;
    if (x) {
        ok = n >= off + 4;
        if (ok) { extlen = 4 * be16(d + off + 2); ok = n >= off + 4 + extlen; off += 4 + extlen; }
    }
    uint64_t end = n;
    if (ok && (d[0] & 0x20)) { ok = end > off && d[n - 1] <= end - off; if (ok) end -= d[n - 1]; }
    vf_assert((pkt != nullptr) == ok, "a packet is returned exactly for well-formed bytes");
    if (!ok) { vf_cover("rejected"); return; }
    vf_assert(pkt->getMarker() == (d[1] >> 7) && pkt->getPayloadId() == (d[1] & 127), "marker and payload type");
    vf_assert(pkt->getSequence() == be16(d + 2) && pkt->getTimestamp() == be32(d + 4) && pkt->getSSRC() == be32(d + 8), "sequence, timestamp, SSRC");
    vf_assert(pkt->getTrack() == track && pkt->getPaddingSize() == 0, "track; padding is gone");
    vf_assert(pkt->getPayloadSize() == end - off, "payload size: after CSRCs and extension, before padding");
    const uint64_t k = vf_range(0, 65535, "k");
    if (k < end - off) { vf_assert(pkt->getPayload().data()[k] == d[off + k], "payload bytes"); vf_cover("payload"); }
    const auto& e = pkt->getExtension();
    if (!x) vf_assert(e.empty(), "no extension");
    else {
        vf_assert(e.getData().size() <= extlen, "extension stays inside its length");
        const auto id = be16(d + ext - 4);
        if (!e.empty()) vf_assert(e.getId() == id && (id == 0xBEDE || (id & 0xfff0) == 0x1000), "extension kind");
        if (k < e.getData().size()) { vf_assert(e.getData().data()[k] == d[ext + k], "extension bytes"); vf_cover("extension"); }
    }
}
namespace {
void generate(bool rtx, unsigned rest)
{
    auto ts = anyTrack();
    if (rtx) vf_assume(ts.rtxPt > 0);
    auto track = makeTrack(ts);
    const bool marker = vf_bool("marker");
    const uint32_t roc = vf_u32("roc"), tstamp = vf_u32("ts");
    const uint16_t seq = vf_u16("seq");
    const uint8_t pad = vf_u8("pad");
    const uint64_t np = vf_range(0, 1500, "np"), words = vf_range(0, 255, "words");
    const uint64_t ne = words << 2 | rest, up = rest ? words + 1 : words; // extension size, in words rounded up
    auto pl = (const uint8_t*)vf_bytes(np, "payload");
    auto ex = (const uint8_t*)vf_bytes(ne, "ext");
    const uint16_t exid = vf_u16("exid");
    vf_assume(exid != 0);
    RtpPacket pkt(track, marker, roc, seq, tstamp, pad, RtpExtension(exid, ByteBuffer(ex, ne)), ByteBuffer(pl, np));
    uint32_t wantRoc = roc; uint16_t wantSeq = seq; uint64_t osn = 0; uint32_t wantSsrc = ts.ssrc; uint8_t wantPt = ts.pt;
    RtpExtension other(exid, ByteBuffer(ex, ne));
    if (rtx) {
        auto src = track->getRtxPacketSource();
        vf_assert(src != track->getRtpPacketSource(), "retransmissions are numbered separately");
        // any number of retransmissions before
        const auto prev = src->getNextSequence();
        wantSeq = (uint16_t)(prev.second + 1); wantRoc = prev.first; osn = 2; wantSsrc = ts.rtxSsrc; wantPt = ts.rtxPt;
        if (wantSeq == 0) wantRoc++;
        pkt.setExtension(RtpExtension());
    }
    const auto out = rtx ? pkt.generateRtx(other) : pkt.generate();
    const uint8_t* o = out.buf.data();
    const uint64_t n = out.buf.size(), es = ne ? 4 + up * 4 : 0;
    vf_assert(out.rollover == wantRoc, "rollover counter of the sequence number");
    vf_assert(n == 12 + es + osn + np + pad, "size");
    vf_assert(o[0] == (0x80 | (pad ? 0x20 : 0) | (ne ? 0x10 : 0)), "version, padding, extension, no CSRC");
    vf_assert(o[1] == ((marker ? 0x80 : 0) | wantPt), "marker and payload type");
    vf_assert(be16(o + 2) == wantSeq && be32(o + 4) == tstamp && be32(o + 8) == wantSsrc, "sequence, timestamp, SSRC");
    const uint64_t k = vf_range(0, 65535, "k");
    if (ne) {
        vf_assert(be16(o + 12) == exid && be16(o + 14) == up, "extension header counts words");
        if (k < up * 4) vf_assert(o[16 + k] == (k < ne ? ex[k] : 0), "extension bytes, zero padded");
        vf_cover("ext");
    }
    if (rtx) vf_assert(be16(o + 12 + es) == seq, "original sequence number comes first");
    if (k < np) { vf_assert(o[12 + es + osn + k] == pl[k], "payload bytes"); vf_cover("payload"); }
    if (pad) { vf_assert(o[n - 1] == pad, "padding count is the last byte"); if (k < 300 && k + 1 < pad) vf_assert(o[12 + es + osn + np + k] == 0, "padding is zero"); vf_cover("pad"); }
}
}
VF_HARNESS(rtp_generate_0) { vfc_bytebuf(); generate(false, 0); }
VF_HARNESS(rtp_generate_1) { vfc_bytebuf(); generate(false, 1); }
VF_HARNESS(rtp_generate_2) { vfc_bytebuf(); generate(false, 2); }
VF_HARNESS(rtp_generate_3) { vfc_bytebuf(); generate(false, 3); }
VF_HARNESS(rtp_generate_rtx_0) { vfc_bytebuf(); generate(true, 0); }
// OPT: rtp_generate_rtx_0 property=C07
VF_HARNESS(rtp_generate_rtx_1) { vfc_bytebuf(); generate(true, 1); }
// OPT: rtp_generate_rtx_1 property=C07
VF_HARNESS(rtp_generate_rtx_2) { vfc_bytebuf(); generate(true, 2); }
// OPT: rtp_generate_rtx_2 property=C07
VF_HARNESS(rtp_generate_rtx_3) { vfc_bytebuf(); generate(true, 3); }
// OPT: rtp_generate_rtx_3 property=C07
VF_HARNESS(rtp_roundtrip)
{
    vfc_bytebuf();
    auto ts = anyTrack();
    auto track = makeTrack(ts);
    const bool marker = vf_bool("marker");
    const uint32_t tstamp = vf_u32("ts");
    const uint16_t seq = vf_u16("seq");
    const uint8_t pad = vf_u8("pad");
    const uint64_t np = vf_range(0, 1500, "np");
    auto pl = (const uint8_t*)vf_bytes(np, "payload");
    ByteBuffer eb;
    const uint8_t eid = vf_u8("eid");
    const uint64_t ne = vf_range(0, 255, "ne");
    vf_assume(eid > 0);
    auto ev = (const uint8_t*)vf_bytes(ne, "ext");
    ByteWriter w(eb);
    w.writeU8(eid); w.writeU8(ne); w.write(ev, ne);
    vf_unroll("trimPadding", 6);
    RtpPacket pkt(track, marker, 0, seq, tstamp, pad, RtpExtension(0x1000, std::move(eb)), ByteBuffer(pl, np));
    const auto out = pkt.generate();
    auto q = RtpPacket::fromUdpPacket(track, out.buf);
    vf_assert(q != nullptr, "a generated packet parses");
    vf_assert(q->getMarker() == marker && q->getSequence() == seq && q->getTimestamp() == tstamp && q->getSSRC() == ts.ssrc && q->getPayloadId() == ts.pt, "header fields survive");
    vf_assert(q->getPayloadSize() == np, "payload size survives");
    const uint64_t k = vf_range(0, 65535, "k");
    if (k < np) vf_assert(q->getPayload().data()[k] == pl[k], "payload survives");
    vf_assert(q->getExtension().getId() == 0x1000 && q->getExtension().getData().size() == 2 + ne, "extension survives");
    if (k < ne) { vf_assert(q->getExtension().getData().data()[2 + k] == ev[k], "extension value survives"); vf_cover("ext"); }
}
