// PROPERTY: C14
// TUS: src/sctp/sctp_session.cpp src/sctp/sctp_packet.cpp src/sctp/sctp_packet_builder.cpp src/sctp/sctp_defs.cpp src/sctp/data_channel_receive_buffer.cpp src/data_channel_message.cpp src/byte_buffer.cpp src/util.cpp
// OPT: dc_recv5 tier=thorough
// ASSUME: the scheduler runs what is submitted and nothing else; checksums and the cookie's HMAC are checked elsewhere (C12, C01)
#include "stub_net.h"
#include "sctp_util.h"
namespace {
// a fragment on its way: which message and which part of it
struct Frag { int msg, part, parts; size_t size; };
void expect(const Rec& r, char kind, char label, const uint8_t* d, size_t n, const char* what)
{
    vf_assert(r.kind == kind && r.label == label && r.size == n, what);
    vf_assert(!n || !memcmp(r.data, d, n), "exactly the bytes sent");
}
// messages on one ordered stream: all fragments arrive once or more, in any order
void arrive(const Frag* f, int count, int msgs, int steps)
{
    auto p = connected(1, 100000);
    openAll(p, 1);
    auto& rb = p->s->mDataChannels.front().receiveBuffer;
    const uint16_t ssn = vf_u16("ssn"); // anywhere in the stream, also across the wrap
    rb.mNextSsn = ssn;
    uint8_t bytes[5][8];
    for (int i = 0; i < count; i++) memcpy(bytes[i], vf_bytes(f[i].size, "payload"), f[i].size);
    bool have[5] = {};
    for (int s = 0; s < steps; s++) {
        const int i = (int)vf_case(vf_range(0, count - 1, "which"), 0, count - 1);
        const uint8_t flags = (f[i].part == 0 ? kDataFlagB : 0) | (f[i].part == f[i].parts - 1 ? kDataFlagE : 0);
        p->data(p->tsn + i, 1, (uint16_t)(ssn + f[i].msg), flags, f[i].msg & 1 ? kPpidBinary : kPpidString, bytes[i], f[i].size);
        have[i] = true;
        // delivered: the leading messages all of whose fragments arrived; everything else waits
        int want = 0;
        bool all = true;
        for (int k = 0, m = 0; m < msgs && all; m++) {
            for (; k < count && f[k].msg == m; k++) all &= have[k];
            if (all) want++;
        }
        vf_assert(p->l.nGot == want, "delivered once all fragments are there, once, and not before those that precede it");
    }
    for (int m = 0, k = 0; m < p->l.nGot; m++) {
        uint8_t whole[24]; size_t n = 0;
        for (; k < count && f[k].msg == m; k++) { memcpy(whole + n, bytes[k], f[k].size); n += f[k].size; }
        expect(p->l.got[m], m & 1 ? 'b' : 't', 'a', whole, n, "in stream order, on its channel, with its type");
    }
    if (p->l.nGot == msgs) vf_cover("all");
    if (p->l.nGot == 0) vf_cover("none");
}
const Frag kThree[] = { { 0, 0, 3, 4 }, { 0, 1, 3, 4 }, { 0, 2, 3, 3 } };
const Frag kFour[] = { { 0, 0, 2, 4 }, { 0, 1, 2, 1 }, { 1, 0, 1, 2 }, { 2, 0, 1, 3 } };
const Frag kFive[] = { { 0, 0, 2, 4 }, { 0, 1, 2, 1 }, { 1, 0, 1, 2 }, { 2, 0, 2, 3 }, { 2, 1, 2, 2 } };
}
VF_HARNESS(dc_recv3) { SCTP_SETUP(); vf_bounded("a message of three fragments, four arrivals in any order"); arrive(kThree, 3, 1, 4); }
VF_HARNESS(dc_recv4) { SCTP_SETUP(); vf_bounded("three messages of four fragments, four arrivals in any order"); arrive(kFour, 4, 3, 4); }
VF_HARNESS(dc_recv5) { SCTP_SETUP(); vf_bounded("three messages of five fragments, five arrivals in any order"); arrive(kFive, 5, 3, 5); }
VF_HARNESS(dc_two_streams)
{
    // fragments of two channels between each other
    SCTP_SETUP();
    auto p = connected(2, 100000);
    openAll(p, 2);
    for (auto& c : p->s->mDataChannels) c.receiveBuffer.mNextSsn = vf_u16("ssn");
    auto it = p->s->mDataChannels.begin();
    const uint16_t s1 = it->receiveBuffer.mNextSsn, s2 = (++it)->receiveBuffer.mNextSsn;
    uint8_t x[8], y[8];
    memcpy(x, vf_bytes(8, "x"), 8); memcpy(y, vf_bytes(8, "y"), 8);
    p->data(p->tsn, 1, s1, kDataFlagB, kPpidBinary, x, 4);
    p->data(p->tsn + 1, 3, s2, kDataFlagB, kPpidString, y, 4);
    vf_assert(p->l.nGot == 0, "not before they are whole");
    p->data(p->tsn + 2, 1, s1, kDataFlagE, kPpidBinary, x + 4, 4);
    vf_assert(p->l.nGot == 1, "the first one is whole");
    p->data(p->tsn + 3, 3, s2, kDataFlagE, kPpidString, y + 4, 4);
    vf_assert(p->l.nGot == 2, "the second one is whole");
    expect(p->l.got[0], 'b', 'a', x, 8, "first channel");
    expect(p->l.got[1], 't', 'b', y, 8, "second channel");
    vf_cover("end");
}
VF_HARNESS(dc_empty)
{
    SCTP_SETUP();
    auto p = connected(1, 100000);
    openAll(p, 1);
    const uint16_t ssn = p->s->mDataChannels.front().receiveBuffer.mNextSsn = vf_u16("ssn");
    const uint8_t zero = vf_u8("zero");
    p->data(p->tsn, 1, ssn, kDataFlagComplete, kPpidStringEmpty, &zero, 1);
    p->data(p->tsn + 1, 1, ssn + 1, kDataFlagComplete, kPpidBinaryEmpty, &zero, 1);
    vf_assert(p->l.nGot == 2, "delivered");
    expect(p->l.got[0], 't', 'a', nullptr, 0, "an empty text");
    expect(p->l.got[1], 'b', 'a', nullptr, 0, "an empty binary message");
    vf_cover("end");
}
VF_HARNESS(dc_peer_opens)
{
    // a channel the peer opens: acknowledged on its stream; its messages follow the open message
    SCTP_SETUP();
    auto p = connected(0, 100000);
    uint8_t open[13] = { kDcepMsgOpen, 0 };
    put16(open + 8, 1); open[12] = 'z';
    const uint16_t stream = vf_u16("stream");
    p->data(p->tsn, stream, 0, kDataFlagComplete, kPpidDcep, open, 13);
    vf_assert(p->l.nGot == 1 && p->l.got[0].kind == 'o' && p->l.got[0].label == 'z', "the application is told");
    vf_assert(p->l.nOut == 2 && p->chunk(1)[0] == kChunkData && be16(p->chunk(1) + 8) == stream && be32(p->chunk(1) + 12) == kPpidDcep && p->chunk(1)[16] == kDcepMsgAck, "acknowledged");
    vf_assert(be16(p->chunk(1) + 10) == 0, "as the first message of the stream");
    const uint8_t x = vf_u8("x"), y = vf_u8("y");
    p->data(p->tsn + 2, stream, 2, kDataFlagComplete, kPpidBinary, &y, 1);
    vf_assert(p->l.nGot == 1, "the one before it is missing");
    p->data(p->tsn + 1, stream, 1, kDataFlagComplete, kPpidBinary, &x, 1);
    vf_assert(p->l.nGot == 3, "both");
    expect(p->l.got[1], 'b', 'z', &x, 1, "in order");
    expect(p->l.got[2], 'b', 'z', &y, 1, "in order");
    DataChannelMessage m = {};
    m.kind = DataChannelMessage::Kind::kBinary; m.label = "z"; m.binary = ByteBuffer(&x, 1);
    const int n = p->l.nOut;
    p->s->send(std::move(m));
    vf_assert(p->l.nOut == n + 1 && be16(p->chunk(n) + 8) == stream && be16(p->chunk(n) + 10) == 1, "what we send follows our acknowledgement");
    vf_cover("end");
}
namespace {
void sendBin(Peer* p, const uint8_t* d, size_t n)
{
    DataChannelMessage m = {};
    m.kind = DataChannelMessage::Kind::kBinary; m.label = "a"; m.binary = ByteBuffer(d, n);
    p->s->send(std::move(m));
}
// outgoing: the fragments from out[i] make up exactly this message; returns the next i
int fragments(Peer* p, int i, uint16_t ssn, uint32_t tsn, const uint8_t* d, size_t n)
{
    size_t at = 0;
    for (bool first = true;; first = false) {
        vf_assert(i < p->l.nOut, "another fragment");
        auto& r = p->l.out[i];
        auto c = p->chunk(i++);
        const size_t size = be16(c + 2) - 16;
        vf_assert(c[0] == kChunkData && r.size == 12 + 16 + (size + 3) / 4 * 4, "one data chunk per packet");
        vf_assert(r.size <= 1200, "that fits a datagram");
        vf_assert(be32(c + 4) == tsn++ && be16(c + 8) == 1 && be16(c + 10) == ssn, "consecutive TSNs, same stream and number");
        if (n == 0) {
            vf_assert(size == 1 && c[16] == 0 && c[1] == kDataFlagComplete && be32(c + 12) == kPpidBinaryEmpty, "an empty message is one zero byte");
            return i;
        }
        vf_assert(be32(c + 12) == kPpidBinary, "the type of the message");
        vf_assert(size > 0 && at + size <= n && !memcmp(c + 16, d + at, size), "its bytes, in order");
        at += size;
        vf_assert(c[1] == (uint8_t)((first ? kDataFlagB : 0) | (at == n ? kDataFlagE : 0)), "first and last fragments are marked, and no other");
        if (at == n) return i;
    }
}
}
VF_HARNESS(dc_send)
{
    SCTP_SETUP();
    vf_bounded("message sizes around multiples of the fragment size, up to four fragments");
    static const size_t sizes[] = { 0, 1, 1099, 1100, 1101, 2199, 2200, 2201, 3300, 3301, 4400 };
    auto p = connected(1, 100000);
    openAll(p, 1);
    const size_t n = sizes[vf_case(vf_range(0, 10, "size"), 0, 10)];
    auto d = (const uint8_t*)vf_bytes(n, "message");
    sendBin(p, d, n);
    const int i = fragments(p, 0, 1, p->myTsn, d, n);
    vf_assert(i == p->l.nOut, "nothing else");
    const uint8_t x = 7;
    const uint32_t tsn = p->s->mCurrentTsn;
    sendBin(p, &x, 1);
    vf_assert(fragments(p, i, 2, tsn, &x, 1) == p->l.nOut, "the next message follows");
    vf_cover("end");
}
VF_HARNESS(dc_window)
{
    // a small receive window: messages wait, keep their order, and all get out as the peer acknowledges
    SCTP_SETUP();
    vf_bounded("three messages of up to three bytes");
    const uint32_t rwnd = (uint32_t)vf_case(vf_range(0, 5, "rwnd"), 0, 5);
    auto p = connected(1, 1000);
    openAll(p, 1);
    p->sack(p->myTsn - 1, rwnd);
    size_t n[3]; uint8_t d[3][4];
    p->l.nOut = 0;
    for (int i = 0; i < 3; i++) {
        n[i] = i == 2 ? 1 : vf_case(vf_range(0, 3, "size"), 0, 3);
        if (n[i]) memcpy(d[i], vf_bytes(n[i], "message"), n[i]);
        sendBin(p, d[i], n[i]);
    }
    vf_assert(p->l.nOut >= 1, "one at least is sent when nothing is outstanding");
    size_t flight = 0;
    for (int i = 0; i < p->l.nOut; i++) flight += be16(p->chunk(i) + 2) - 16;
    vf_assert(p->l.nOut == 1 || flight <= rwnd + 1, "within the window");
    for (int round = 0; round < 3; round++) p->sack(p->s->mCurrentTsn - 1, rwnd);
    int at = 0;
    for (int i = 0; i < 3; i++) at = fragments(p, at, (uint16_t)(1 + i), p->myTsn + i, d[i], n[i]);
    vf_assert(at == p->l.nOut && p->s->mPendingSend.empty() && p->s->mSentChunks.empty(), "all of them, once, in the order given");
    vf_cover("end");
}
VF_HARNESS(dc_buffer_unordered)
{
    // without ordering: each message as soon as it is whole
    SCTP_SETUP();
    DataChannelReceiveBuffer rb;
    const uint16_t base = vf_u16("ssn");
    rb.mNextSsn = vf_u16("next");
    uint8_t x[6];
    memcpy(x, vf_bytes(6, "x"), 6);
    auto out = rb.receive(base, kDataFlagB, true, kPpidBinary, x, 2);
    vf_assert(out.empty(), "not whole");
    out = rb.receive((uint16_t)(base + 5), kDataFlagComplete, true, kPpidString, x, 3);
    vf_assert(out.size() == 1 && out.front().ppid == kPpidString && out.front().data.size() == 3 && !memcmp(out.front().data.data(), x, 3), "whole at once");
    out = rb.receive(base, 0, true, kPpidBinary, x + 2, 2);
    vf_assert(out.empty(), "not whole yet");
    out = rb.receive(base, kDataFlagE, true, kPpidBinary, x + 4, 2);
    vf_assert(out.size() == 1 && out.front().ppid == kPpidBinary && out.front().data.size() == 6 && !memcmp(out.front().data.data(), x, 6), "whole with its last fragment");
    out = rb.receive(base, kDataFlagComplete, true, kPpidBinary, x, 1);
    vf_assert(out.size() == 1 && out.front().data.size() == 1, "numbers may be used again");
    vf_cover("end");
}
VF_HARNESS(dc_buffer_order)
{
    // whole messages in any order of arrival, numbers across the wrap; old ones are dropped
    SCTP_SETUP();
    vf_bounded("four messages in any order");
    DataChannelReceiveBuffer rb;
    const uint16_t base = vf_u16("ssn");
    rb.mNextSsn = base;
    bool have[4] = {};
    int done = 0;
    for (int s = 0; s < 5; s++) {
        const int i = (int)vf_case(vf_range(0, 3, "which"), 0, 3);
        const uint8_t x = (uint8_t)(10 + i);
        auto out = rb.receive((uint16_t)(base + i), kDataFlagComplete, false, kPpidBinary, &x, 1);
        if (!have[i]) have[i] = true;
        // a second copy of one that waits must not change it (the session drops these already)
        else if (i >= done) return;
        for (auto& m : out) {
            vf_assert(done < 4 && have[done], "not before it arrived");
            vf_assert(m.data.size() == 1 && m.data.data()[0] == 10 + done, "in order, whole");
            done++;
        }
        vf_assert(done == 4 || !have[done], "everything that can be delivered is");
    }
    vf_cover("end");
}
