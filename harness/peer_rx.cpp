// PROPERTY: C27
// TUS: src/byte_buffer.cpp src/util.cpp
// ASSUME: sockets hand out datagrams of at least one byte (Socket::receive keeps only r > 0)
// NATIVE: no
// What happens to a received datagram: PeerCandidate::run and onReceivedRtcMessage.
#include "peer_util.h"
namespace {
int g_stun, g_dtls, g_rtc;
const uint8_t* g_data; uint64_t g_n;
void on_stun(PeerCandidate*, const Socket::ReceivedData& d) { g_stun++; g_data = d.buf.data(); g_n = d.buf.size(); }
void on_dtls(PeerCandidate*, ByteBuffer&& b) { g_dtls++; g_data = b.data(); g_n = b.size(); }
void on_rtc(PeerCandidate*, ByteBuffer&& b) { g_rtc++; g_data = b.data(); g_n = b.size(); }
ByteBuffer whole(const uint8_t* d, uint64_t n) { ByteBuffer b; b.mBuf = (uint8_t*)d; b.mLen = b.mCap = n; return b; }
}
VF_HARNESS(dispatch)
{
    vf_stub("srtc::PeerCandidate::onReceivedStunMessage(srtc::Socket::ReceivedData const&)", (void*)&on_stun);
    vf_stub("srtc::PeerCandidate::onReceivedDtlsMessage(srtc::ByteBuffer&&)", (void*)&on_dtls);
    vf_stub("srtc::PeerCandidate::onReceivedRtcMessage(srtc::ByteBuffer&&)", (void*)&on_rtc);
    g_stun = g_dtls = g_rtc = 0;
    auto pc = rawPeer();
    const uint64_t n = vf_range(1, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "datagram");
    const bool ssl = vf_fork(vf_bool("dtls is there"));
    if (ssl) pc->mDtlsSsl = (ssl_st*)&g_raw;
    const uint8_t first = d[0];
    const bool cookie = n >= 20 && d[4] == 0x21 && d[5] == 0x12 && d[6] == 0xA4 && d[7] == 0x42;
    anyaddr from{};
    pc->mRawReceiveQueue.emplace_back(whole(d, n), from, (socklen_t)16);
    pc->run();
    vf_assert(pc->mRawReceiveQueue.empty(), "the datagram is taken from the queue");
    vf_assert(g_stun + g_dtls + g_rtc <= 1, "a datagram is processed at most once");
    if (g_stun + g_dtls + g_rtc) vf_assert(g_data == d && g_n == n, "the handler gets the datagram");
    if (g_stun) { vf_assert(first <= 3 && cookie, "STUN has a first byte of 0 to 3 and the magic cookie"); vf_cover("stun"); }
    if (g_dtls) { vf_assert(first >= 20 && first <= 63 && ssl, "DTLS has a first byte of 20 to 63"); vf_cover("dtls"); }
    if (g_rtc) { vf_assert(first >= 128 && first <= 191 && n >= 8, "RTP and RTCP have a first byte of 128 to 191"); vf_cover("rtc"); }
    if (first <= 1 && cookie && n > 20) vf_assert(g_stun == 1, "STUN requests and responses are processed as STUN");
    if (first >= 20 && first <= 24 && n >= 13 && ssl) vf_assert(g_dtls == 1, "DTLS records are processed as DTLS");
    if (first >= 128 && first <= 191 && n >= 12) vf_assert(g_rtc == 1, "RTP and RTCP packets are processed as such");
    if (!(g_stun + g_dtls + g_rtc)) vf_cover("dropped");
}
namespace {
int g_control, g_media; const ByteBuffer* g_in;
bool un_control(SrtpConnection*, const ByteBuffer& in, ByteBuffer&) { g_control++; g_in = &in; return false; }
bool un_media(SrtpConnection*, const ByteBuffer& in, ByteBuffer&) { g_media++; g_in = &in; return false; }
}
VF_HARNESS(rtp_or_rtcp)
{
    vf_stub("srtc::SrtpConnection::unprotectReceiveControl(srtc::ByteBuffer const&, srtc::ByteBuffer&)", (void*)&un_control);
    vf_stub("srtc::SrtpConnection::unprotectReceiveMedia(srtc::ByteBuffer const&, srtc::ByteBuffer&)", (void*)&un_media);
    g_control = g_media = 0;
    auto pc = rawPeer();
    const bool up = vf_fork(vf_bool("connected"));
    if (up) *(void**)&pc->mSrtpConnection = &g_raw;
    const uint64_t n = vf_range(8, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "datagram");
    ByteBuffer b = whole(d, n);
    pc->onReceivedRtcMessage(std::move(b));
    if (!up) { vf_assert(!g_control && !g_media, "nothing is accepted before the connection is there"); vf_cover("not connected"); return; }
    const uint8_t pt = d[1] & 0x7f;
    const bool rtcp = pt >= 64 && pt <= 95;
    vf_assert(g_control == (rtcp ? 1 : 0) && g_media == (rtcp ? 0 : 1), "RTCP is told from RTP by payload types 64 to 95 (RFC 5761)");
    if (rtcp) vf_cover("rtcp"); else vf_cover("rtp");
}
