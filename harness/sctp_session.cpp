// PROPERTY: C13
// TUS: src/sctp/sctp_session.cpp src/sctp/sctp_packet.cpp src/sctp/sctp_packet_builder.cpp src/sctp/sctp_defs.cpp src/sctp/data_channel_receive_buffer.cpp src/data_channel_message.cpp src/byte_buffer.cpp src/util.cpp
// OPT: sctp_received4 tier=thorough
// ASSUME: the scheduler runs what is submitted and nothing else; checksums and the cookie's HMAC are checked elsewhere (C12, C01)
#include "stub_net.h"
#include "sctp_util.h"
namespace {
void sendText(Peer* p, const char* label, const uint8_t* d, size_t n)
{
    DataChannelMessage m = {};
    m.kind = DataChannelMessage::Kind::kText;
    m.label = label;
    m.text = std::string((const char*)d, n);
    p->s->send(std::move(m));
}
// the session's state, as a value
struct State_ {
    int st; uint32_t tag, out, in, rwnd, cum, tsn, flight; size_t sent, pend, ooo, chans; int nOut, nGot, submitted;
    explicit State_(Peer* p)
        : st((int)p->s->mState), tag(p->s->mPeerTag), out(p->s->mPeerOutStreams), in(p->s->mPeerInStreams), rwnd(p->s->mPeerRwnd),
          cum(p->s->mPeerCumulativeTsn), tsn(p->s->mCurrentTsn), flight(p->s->mFlightSize), sent(p->s->mSentChunks.size()),
          pend(p->s->mPendingSend.size()), ooo(p->s->mPeerOutOfOrderChunks.size()), chans(p->s->mDataChannels.size()), nOut(p->l.nOut),
          nGot(p->l.nGot), submitted(g_submitted) {}
    bool sameAssociation(const State_& o) const
    {
        return st == o.st && tag == o.tag && out == o.out && in == o.in && rwnd == o.rwnd && cum == o.cum && tsn == o.tsn && flight == o.flight &&
               sent == o.sent && pend == o.pend && ooo == o.ooo && chans == o.chans && nGot == o.nGot;
    }
    bool same(const State_& o) const { return sameAssociation(o) && nOut == o.nOut && submitted == o.submitted; }
};
Peer* inState(int k)
{
    if (k == 0) return fresh(1);                                    // INIT sent
    if (k == 1) { auto p = fresh(1); initAck(p, 5000); p->l.nOut = 0; return p; } // COOKIE-ECHO sent
    auto p = connected(2, 5000);
    openAll(p, 2);
    if (k == 3) { // with something unacknowledged, and something out of order
        static const uint8_t x[3] = { 'x', 'y', 'z' };
        sendText(p, "a", x, 3);
        p->data(p->tsn + 2, 1, 3, kDataFlagComplete, kPpidString, x, 2);
        p->l.nOut = p->l.nGot = 0;
    }
    return p;
}
// one chunk of any content, in any state
void anyChunk(uint8_t type, uint64_t lo, uint64_t hi, const char* tagOf)
{
    const uint64_t n = vf_case(vf_range(lo, hi, "n"), lo, hi);
    const int k = (int)vf_case(vf_range(0, 3, "state"), 0, 3);
    auto p = inState(k);
    auto d = new uint8_t[16 + n]; // exactly the datagram: reading past it is caught
    put16(d, vf_u16("src")); put16(d + 2, vf_u16("dst"));
    put32(d + 4, type == kChunkInit ? 0 : p->myTag);
    put32(d + 8, 0);
    d[12] = type; d[13] = vf_u8("flags"); put16(d + 14, (uint32_t)n + 4);
    if (n) memcpy(d + 16, vf_bytes(n, "body"), n);
    ByteBuffer b(d, 16 + n);
    p->s->onReceiveData(b);
    vf_cover("end");
    delete[] d;
    (void)tagOf;
}
}
#define CHUNK(name, type, lo, hi) VF_HARNESS(name) { SCTP_SETUP(); vf_bounded("datagrams of one chunk with a body of up to " #hi " bytes, in four session states"); anyChunk(type, lo, hi, #type); }
CHUNK(sctp_any_data, kChunkData, 0, 16)
CHUNK(sctp_any_sack, kChunkSack, 0, 24)
CHUNK(sctp_any_init, kChunkInit, 0, 20)
CHUNK(sctp_any_initack, kChunkInitAck, 0, 32)
CHUNK(sctp_any_reconfig, kChunkReconfig, 0, 18)
CHUNK(sctp_any_echo, kChunkCookieEcho, 0, 60)
CHUNK(sctp_any_cookieack, kChunkCookieAck, 0, 4)
VF_HARNESS(sctp_handshake)
{
    SCTP_SETUP();
    auto p = connected(2, 100000);
    openAll(p, 2);
    vf_assert(p->s->isChannelOpen("a") && p->s->isChannelOpen("b"), "channels are open once acknowledged");
    vf_cover("end");
}
VF_HARNESS(sctp_wrong_tag)
{
    SCTP_SETUP();
    vf_bounded("datagrams of up to 28 bytes in four session states");
    const int k = (int)vf_case(vf_range(0, 3, "state"), 0, 3);
    auto p = inState(k);
    const State_ before(p);
    const uint64_t n = vf_case(vf_range(0, 28, "n"), 0, 28);
    auto d = (uint8_t*)vf_bytes(n, "datagram");
    if (n >= 16) vf_assume(d[12] == kChunkInit ? be32(d + 4) != 0 : be32(d + 4) != p->myTag);
    else vf_cover("short");
    ByteBuffer b(d, n);
    p->s->onReceiveData(b);
    vf_assert(before.same(State_(p)), "a datagram with a wrong verification tag changes nothing and gets no answer");
    vf_cover("end");
}
VF_HARNESS(sctp_init_later)
{
    SCTP_SETUP();
    const int k = (int)vf_case(vf_range(1, 3, "state"), 1, 3);
    auto p = inState(k);
    const State_ before(p);
    Dgram d(0, kChunkInit, vf_u8("flags"), (uint8_t*)vf_bytes(16, "init"), 16);
    p->s->onReceiveData(d.b);
    vf_assert(before.sameAssociation(State_(p)), "an INIT does not change an association that is being set up or established");
    vf_cover("end");
}
VF_HARNESS(sctp_init_bundled)
{
    SCTP_SETUP();
    const int k = (int)vf_case(vf_range(0, 3, "state"), 0, 3);
    auto p = inState(k);
    const State_ before(p);
    auto body = (uint8_t*)vf_bytes(16 + 4 + 16, "body");
    body[16] = (uint8_t)vf_u8("type"); put16(body + 18, 20);
    Dgram d(0, kChunkInit, 0, body, 16 + 20);
    put16(d.b.data() + 14, 20); // the INIT chunk ends after 16 bytes
    p->s->onReceiveData(d.b);
    vf_assert(before.same(State_(p)), "nothing rides in with an INIT, which needs no verification tag");
    vf_cover("end");
}
namespace {
// what is acknowledged, and what is not
void sack(int count, int gaps)
{
    auto p = connected(1, 100000);
    openAll(p, 1);
    uint8_t x[4] = { 'w', 'x', 'y', 'z' };
    for (int i = 0; i < count; i++) sendText(p, "a", x, i + 1);
    vf_assert(p->s->mSentChunks.size() == (size_t)count, "outstanding");
    for (int i = 0; i < count; i++) vf_assert(be32(p->chunk(i) + 4) == p->myTsn + i, "consecutive transmission sequence numbers");
    // relative to the first outstanding one; before, among and after
    const uint32_t rel = (uint32_t)vf_case(vf_range(0, count + 2, "cum"), 0, count + 2), cum = p->myTsn - 2 + rel;
    uint16_t g[4] = { 0xffff, 0, 0xffff, 0 };
    for (int i = 0; i < 2 * gaps; i++) g[i] = vf_u16("gap");
    p->sack(cum, 100000, g, (uint16_t)gaps);
    size_t left = 0, flight = 0;
    auto it = p->s->mSentChunks.begin();
    for (int i = 0; i < count; i++) {
        const uint32_t o = (uint32_t)i + 2 - rel; // from cum
        bool acked = (int32_t)o <= 0;
        for (int j = 0; j < gaps; j++) if ((int32_t)o > 0 && o >= g[2 * j] && o <= g[2 * j + 1]) acked = true;
        if (vf_fork(acked)) continue;
        vf_assert(it != p->s->mSentChunks.end() && it->tsn == p->myTsn + i, "not covered: still outstanding, in order");
        ++it; left++; flight += i + 1;
    }
    vf_assert(it == p->s->mSentChunks.end() && p->s->mSentChunks.size() == left, "covered: no longer outstanding");
    vf_assert(p->s->mFlightSize == flight, "bytes in flight are those outstanding");
    // the oldest one is what is retransmitted
    const int n = p->l.nOut;
    (*g_task)();
    if (left) {
        vf_assert(p->l.nOut == n + 1 && p->chunk(n)[0] == kChunkData && be32(p->chunk(n) + 4) == p->s->mSentChunks.front().tsn, "the oldest outstanding chunk is sent again");
        const uint32_t i = p->s->mSentChunks.front().tsn - p->myTsn;
        vf_assert(p->l.out[n].size == p->l.out[i].size && !memcmp(p->l.out[n].data, p->l.out[i].data, p->l.out[n].size), "as it was sent first");
        vf_cover("left");
    } else {
        vf_assert(p->l.nOut == n, "nothing to send again");
        vf_cover("none");
    }
}
}
VF_HARNESS(sctp_sack_cum) { SCTP_SETUP(); vf_bounded("four chunks outstanding"); sack(4, 0); }
VF_HARNESS(sctp_sack_gap) { SCTP_SETUP(); vf_bounded("three chunks outstanding, one gap block"); sack(3, 1); }
VF_HARNESS(sctp_sack_gaps) { SCTP_SETUP(); vf_bounded("three chunks outstanding, two gap blocks"); sack(3, 2); }
namespace {
// what we say has arrived is what has arrived
void received(int count, int span)
{
    auto p = connected(1, 100000);
    openAll(p, 1);
    bool have[16] = {};
    static const uint8_t x[1] = { 'x' };
    for (int k = 0; k < count; k++) {
        const int i = (int)vf_case(vf_range(0, span, "i"), 0, span);
        p->l.nOut = 0;
        p->data(p->tsn - 1 + i, 1, (uint16_t)(1 + k), (uint8_t)vf_any_u8(), 9999, x, 1); // an unknown protocol identifier: ignored
        have[i] = true;
        have[0] = true;
        int cum = 0;
        while (cum < 15 && have[cum + 1]) cum++;
        vf_assert(p->l.nOut == 1 && p->chunk(0)[0] == kChunkSack && be32(p->l.out[0].data + 4) == p->tag, "each data chunk is answered under the peer's tag");
        vf_assert(be32(p->chunk(0) + 4) == p->tsn - 1 + cum, "cumulative: everything up to here, and not the next one");
        bool said[16] = {};
        const uint32_t n = be16(p->chunk(0) + 12);
        vf_assert(n <= 7 && be16(p->chunk(0) + 2) == 16 + 4 * n && p->l.out[0].size == 12 + 16 + 4 * n, "as many gap blocks as counted");
        for (uint32_t j = 0; j < n; j++) {
            const uint32_t a = be16(p->chunk(0) + 16 + 4 * j), b = be16(p->chunk(0) + 18 + 4 * j);
            vf_assert(a >= 2 && a <= b && cum + b < 16, "a gap block is a range after the cumulative number");
            for (uint32_t o = a; o <= b; o++) said[cum + o] = true;
        }
        for (int j = cum + 1; j < 16; j++) vf_assert(said[j] == have[j], "gap blocks name exactly what arrived out of order");
    }
    vf_cover("end");
}
}
VF_HARNESS(sctp_received) { SCTP_SETUP(); vf_bounded("three chunks among five transmission sequence numbers, any starting number"); received(3, 5); }
VF_HARNESS(sctp_received4) { SCTP_SETUP(); vf_bounded("four chunks among five transmission sequence numbers, any starting number"); received(4, 5); }
VF_HARNESS(sctp_far)
{
    // far ahead of what is expected: not held for ever, never acknowledged unless kept
    SCTP_SETUP();
    auto p = connected(1, 100000);
    openAll(p, 1);
    static const uint8_t x[1] = { 'x' };
    const uint32_t o = vf_u32("ahead");
    p->l.nOut = 0;
    p->data(p->tsn - 1 + o, 1, 1, kDataFlagComplete, 9999, x, 1);
    vf_assert(p->l.nOut == 1 && p->chunk(0)[0] == kChunkSack, "answered");
    const uint32_t n = be16(p->chunk(0) + 12), cum = be32(p->chunk(0) + 4) - (p->tsn - 1);
    if (vf_fork(o == 1)) vf_assert(cum == 1 && n == 0, "the next one");
    else {
        vf_assert(cum == 0 && n <= 1, "nothing else moves the cumulative number");
        if (n) vf_assert(be16(p->chunk(0) + 16) == o && be16(p->chunk(0) + 18) == o, "a gap block names it, not another");
        if ((int32_t)o <= 0) vf_assert(n == 0, "old");
        vf_cover("ahead");
    }
}
