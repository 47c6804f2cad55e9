// An SCTP session with its environment: a listener that records what it is told, a scheduler that records what is
// submitted, and (unless the harness supplies them) checksums and cookie authentication as assumed contracts.
#pragma once
#include "vf.h"
#include "stub_random.h"
#include "bytebuf_model.h"
#include "sctp_session.h"
#include "sctp_defs.h"
#include "sctp_crc32.h"
#include "srtc/srtp_hmac_sha1.h"
#include "srtc/sctp_session_listener.h"
#include <new>
#include <cstring>
using namespace srtc;
using namespace srtc::sctp;
namespace srtc {
Task::~Task() {}
static int g_cancelled, g_submitted, g_mac;
static uint8_t g_macOut[20];
static std::function<void()>* g_task;
void Task::cancelHelper(std::weak_ptr<Task>&) { g_cancelled++; }
Scheduler::Scheduler() {}
Scheduler::~Scheduler() {}
ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& s) : mScheduler(s) {}
ScopedScheduler::~ScopedScheduler() {}
std::weak_ptr<Task> ScopedScheduler::submit(const Delay&, const char*, int, const Func& f) { g_submitted++; g_task = new Func(f); return {}; }
void ScopedScheduler::cancel(std::shared_ptr<Task>&) {}
std::shared_ptr<RealScheduler> ScopedScheduler::getRealScheduler() { return nullptr; }
HmacSha1::HmacSha1() {}
HmacSha1::~HmacSha1() {}
bool HmacSha1::reset(const uint8_t*, size_t) { g_mac++; return true; }
void HmacSha1::update(const uint8_t* p, size_t n) { uint8_t x = 0; for (size_t i = 0; i < n; i++) x ^= p[i]; (void)x; }
void HmacSha1::final(uint8_t* o) { memcpy(o, g_macOut, 20); }
}
#ifndef SCTP_OWN_CRC
namespace srtc::sctp {
uint32_t crc32c_update(uint32_t, const uint8_t*, size_t) { return 0; }
uint32_t crc32c_finalize(uint32_t) { return 0; }
uint32_t crc32c(const uint8_t*, size_t) { return 0; }
}
#endif
namespace {
uint32_t be16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
void put16(uint8_t* p, uint32_t v) { p[0] = (uint8_t)(v >> 8); p[1] = (uint8_t)v; }
void put32(uint8_t* p, uint32_t v) { put16(p, v >> 16); put16(p + 2, v); }
struct Rec { uint8_t* data; size_t size; char label; char kind; };
struct Listener : SctpSessionListener {
    Rec out[24]; int nOut = 0;   // packets sent
    Rec got[24]; int nGot = 0;   // messages and events for the application
    static void add(Rec* r, int& n, const void* p, size_t size, char label, char kind)
    {
        vf_assert(n < 24, "harness: room for the record");
        r[n].data = new uint8_t[size ? size : 1];
        if (size) memcpy(r[n].data, p, size);
        r[n].size = size; r[n].label = label; r[n].kind = kind;
        n++;
    }
    void onSctpSendPacket(const ByteBuffer& p) override { add(out, nOut, p.data(), p.size(), 0, 'p'); }
    void onSctpDataChannelOpen(const std::string& l) override { add(got, nGot, nullptr, 0, l.empty() ? 0 : l[0], 'o'); }
    void onSctpDataChannelText(const std::string& l, const std::string& t) override { add(got, nGot, t.data(), t.size(), l.empty() ? 0 : l[0], 't'); }
    void onSctpDataChannelBinary(const std::string& l, const ByteBuffer& b) override { add(got, nGot, b.data(), b.size(), l.empty() ? 0 : l[0], 'b'); }
    void onSctpDataChannelClose(const std::string& l) override { add(got, nGot, nullptr, 0, l.empty() ? 0 : l[0], 'c'); }
};
// a datagram of one chunk
struct Dgram {
    ByteBuffer b;
    Dgram(uint32_t tag, uint8_t type, uint8_t flags, const uint8_t* body, size_t n)
    {
        b.reserve(16 + n + 3);
        uint8_t h[16] = {};
        put16(h, 5000); put16(h + 2, 5000); put32(h + 4, tag);
        h[12] = type; h[13] = flags; put16(h + 14, (uint32_t)n + 4);
        b.append(h, 16);
        if (n) b.append(body, n);
    }
};
struct Peer { // the other end, as seen by the session
    Listener l;
    SctpSession* s;
    uint32_t myTag, myTsn;   // the session's
    uint32_t tag, tsn;       // ours
    void give(uint8_t type, uint8_t flags, const uint8_t* body, size_t n) { Dgram d(myTag, type, flags, body, n); s->onReceiveData(d.b); }
    void data(uint32_t t, uint16_t stream, uint16_t ssn, uint8_t flags, uint32_t ppid, const uint8_t* p, size_t n)
    {
        ByteBuffer b;
        b.reserve(12 + n);
        uint8_t h[12];
        put32(h, t); put16(h + 4, stream); put16(h + 6, ssn); put32(h + 8, ppid);
        b.append(h, 12);
        if (n) b.append(p, n);
        give(kChunkData, flags, b.data(), b.size());
    }
    void sack(uint32_t cum, uint32_t rwnd, const uint16_t* gaps = nullptr, uint16_t n = 0)
    {
        uint8_t b[12 + 4 * 4];
        put32(b, cum); put32(b + 4, rwnd); put16(b + 8, n); put16(b + 10, 0);
        for (uint16_t i = 0; i < n; i++) { put16(b + 12 + 4 * i, gaps[2 * i]); put16(b + 14 + 4 * i, gaps[2 * i + 1]); }
        give(kChunkSack, 0, b, 12 + 4 * n);
    }
    // what the session sent last: the chunk and its body
    const uint8_t* chunk(int i) const { return l.out[i].data + 12; }
};
// a fresh session; its tag and first TSN are read from the INIT it sends
Peer* fresh(int channels)
{
    static const char* const names[2] = { "a", "b" };
    g_cancelled = g_submitted = g_mac = 0;
    auto p = new Peer;
    std::vector<std::string> labels;
    for (int i = 0; i < channels; i++) labels.push_back(names[i]);
    p->s = new SctpSession(nullptr, &p->l, 5000, 5000, 0, true, labels); // local streams are odd
    p->s->start();
    vf_assert(p->l.nOut == 1 && p->chunk(0)[0] == kChunkInit && be32(p->l.out[0].data + 4) == 0, "INIT with a zero verification tag");
    p->myTag = be32(p->chunk(0) + 4);
    p->myTsn = be32(p->chunk(0) + 16);
    p->tag = vf_u32("tag");
    p->tsn = vf_u32("tsn");
    return p;
}
void initAck(Peer* p, uint32_t rwnd)
{
    uint8_t b[24];
    put32(b, p->tag); put32(b + 4, rwnd); put16(b + 8, 1024); put16(b + 10, 1024); put32(b + 12, p->tsn);
    put16(b + 16, kParamStateCookie); put16(b + 18, 8); put32(b + 20, 0x01020304);
    p->give(kChunkInitAck, 0, b, 24);
}
// association up, channels open; everything recorded so far is forgotten
Peer* connected(int channels, uint32_t rwnd)
{
    auto p = fresh(channels);
    initAck(p, rwnd);
    vf_assert(p->l.nOut == 2 && p->chunk(1)[0] == kChunkCookieEcho && be32(p->chunk(1) + 4) == 0x01020304, "the cookie is echoed");
    vf_assert(be32(p->l.out[1].data + 4) == p->tag, "under the peer's tag");
    p->give(kChunkCookieAck, 0, nullptr, 0);
    vf_assert(p->l.nOut == 2 + channels, "an open message for each channel");
    p->l.nOut = p->l.nGot = 0;
    return p;
}
void openAll(Peer* p, int channels)
{
    static const uint8_t ack = kDcepMsgAck;
    for (int i = 0; i < channels; i++) p->data(p->tsn++, (uint16_t)(1 + 2 * i), 0, kDataFlagComplete, kPpidDcep, &ack, 1);
    p->sack(p->myTsn + channels - 1, 100000);
    p->myTsn += channels; // next one the session uses
    p->l.nOut = p->l.nGot = 0;
}
}
// for log messages: reads the bytes, returns some text
static std::string hexStub(const uint8_t* p, size_t n) { volatile uint8_t x = 0; if (n) x = p[0] ^ p[n - 1]; (void)x; return std::string("hex"); }
#define SCTP_SETUP() vfc_bytebuf(); vf_stub("srtc::bin_to_hex[abi:cxx11](unsigned char const*, unsigned long)", (void*)&hexStub); vf_unroll("*", 40);
