// PROPERTY: C20
// TUS: src/jitter_buffer.cpp src/rtp_packet.cpp src/track.cpp src/rtp_extension.cpp src/media.cpp src/extension_map.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp src/byte_buffer.cpp src/srtc.cpp src/rtp_std_extensions.cpp
// OPT: jb_history4 tier=thorough
// OPT: jb_history5 tier=thorough
// OPT: jb_consume cost=9
// OPT: jb_deque cost=9
// ASSUME: item memory is handed out fresh and released once (the pool is checked under C23); the depacketizer says which packets start and end a frame (C19); sequence numbers and timestamps are extended as checked under C17
#include "vf.h"
#include "track_util.h"
#include "bytebuf_model.h"
#include "srtc/jitter_buffer.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/rtp_packet.h"
#include "srtc/srtc.h"
#include <cstring>
#include <new>
using namespace srtc;
namespace srtc {
Depacketizer::Depacketizer(const std::shared_ptr<Track>& t) : mTrack(t) {}
Depacketizer::~Depacketizer() {}
std::shared_ptr<Track> Depacketizer::getTrack() const { return mTrack; }
static size_t g_itemSize;
static int g_items; // outstanding
PoolAllocatorImpl::PoolAllocatorImpl(size_t n) : mItemSize(n), mAllocatedCount(0), mFreeList(nullptr) { g_itemSize = n; }
PoolAllocatorImpl::~PoolAllocatorImpl() {}
void* PoolAllocatorImpl::allocate() { g_items++; return ::operator new(g_itemSize); }
void PoolAllocatorImpl::release(void* p) { g_items--; ::operator delete(p); }
}
namespace {
int64_t ms(int64_t v) { return v * 1000000; }
// the payload of a packet: its kind, and a number
struct Depack : Depacketizer {
    int resets = 0, frames = 0;
    uint64_t first[24]; size_t count[24];
    explicit Depack(const std::shared_ptr<Track>& t) : Depacketizer(t) {}
    PacketKind getPacketKind(const ByteBuffer& p, bool) const override { return (PacketKind)(p.data()[0] & 3); }
    void reset() override { resets++; }
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& l) override
    {
        ByteBuffer b;
        b.reserve(8);
        vf_assert(!l.empty(), "a frame has packets");
        for (size_t i = 0; i < l.size(); i++) {
            vf_assert(l[i]->received, "only packets that arrived");
            vf_assert(l[i]->seq_ext == l[0]->seq_ext + i, "the packets of a frame are consecutive");
            const auto want = l.size() == 1 ? PacketKind::Standalone : i == 0 ? PacketKind::Start : i == l.size() - 1 ? PacketKind::End : PacketKind::Middle;
            vf_assert(l[i]->kind == want, "from its first packet to its last");
            b.append(l[i]->payload.data() + 1, 1);
        }
        first[frames] = l[0]->seq_ext; count[frames] = l.size(); frames++;
        out.push_back(std::move(b));
    }
};
struct Env {
    std::shared_ptr<Track> track;
    std::shared_ptr<Depack> depack;
    JitterBuffer* jb;
    uint64_t cap;
    explicit Env(size_t capacity, bool nack = true) : cap(capacity)
    {
        vf_now_ns = ms(1000000); g_items = 0;
        auto media = std::make_shared<Media>("0", MediaType::Video);
        track = std::make_shared<Track>(media, Direction::Subscribe, 1111, (uint8_t)96, 2222, (uint8_t)97, Codec::H264, nullptr, nullptr, 90000, nack, false);
        depack = std::make_shared<Depack>(track);
        jb = new JitterBuffer(track, depack, capacity, std::chrono::milliseconds(100), std::chrono::milliseconds(10));
    }
    void arrive(uint16_t seq, uint32_t ts, uint8_t kind, uint8_t id)
    {
        const uint8_t b[2] = { kind, id };
        jb->consume(std::make_shared<RtpPacket>(track, false, 0u, seq, ts, (uint8_t)0, ByteBuffer(b, 2)));
    }
    // every number from the first to the last has its item, nothing else is held
    void invariant()
    {
        if (!jb->mItemList) { vf_assert(g_items == 0, "nothing held"); return; }
        vf_assert(jb->mMinSeq <= jb->mMaxSeq && jb->mMaxSeq - jb->mMinSeq <= cap, "never more than the capacity");
        for (uint64_t i = 0; i < cap; i++) {
            const uint64_t seq = jb->mMinSeq + i;
            auto it = jb->mItemList[seq & (cap - 1)];
            if (seq < jb->mMaxSeq) vf_assert(it && it->seq_ext == seq, "each number has its own item");
            else vf_assert(!it, "other places are empty");
        }
        vf_assert((uint64_t)g_items == jb->mMaxSeq - jb->mMinSeq, "and no item is lost");
    }
};
// frames of a short stream: one packet; three; one; two
const int kPackets = 7;
const uint8_t kKind[] = { 0, 1, 2, 3, 0, 1, 3 }, kFrame[] = { 0, 1, 1, 1, 2, 3, 3 };
const int kFirst[] = { 0, 1, 4, 5 }, kLast[] = { 0, 3, 4, 6 };
struct Stream {
    Env e;
    uint16_t base; uint32_t ts;
    bool have[kPackets] = {};
    int firstGiven = -1;
    int next = 0; // frames before this one were delivered or passed over
    Stream() : e(32)
    {
        const int w = (int)vf_case(vf_range(0, 2, "wrap"), 0, 2);
        base = w == 1 ? 65533 : 1000;
        ts = w == 2 ? 0xffffffffu - 4000 : 5000;
    }
    void give(int i) { if (firstGiven < 0) firstGiven = i; e.arrive((uint16_t)(base + i), ts + kFrame[i] * 3000u, kKind[i], (uint8_t)i); }
    bool whole(int f) const { for (int i = kFirst[f]; i <= kLast[f]; i++) if (!have[i]) return false; return true; }
    int deque()
    {
        auto r = e.jb->processDeque();
        for (auto& f : r) {
            vf_assert(f->data.size() >= 1, "not empty");
            const int k = f->data.data()[0];
            const int n = kFrame[k];
            vf_assert(n >= next, "frames come out in order, each at most once");
            vf_assert(kFirst[n] == k && f->data.size() == (size_t)(kLast[n] - k + 1) && whole(n), "whole");
            for (size_t j = 0; j < f->data.size(); j++) vf_assert(f->data.data()[j] == k + j, "its packets, in order");
            vf_assert((uint16_t)f->seq_ext == (uint16_t)(base + k) && (uint32_t)f->rtp_timestamp_ext == ts + n * 3000u, "with its number and timestamp");
            next = n + 1;
        }
        e.invariant();
        return (int)r.size();
    }
};
void history(int steps)
{
    Stream s;
    for (int k = 0; k < steps; k++) {
        const int i = (int)vf_case(vf_range(0, kPackets - 1, "which"), 0, kPackets - 1);
        s.give(i);
        s.have[i] = true;
        s.e.invariant();
        vf_now_ns += ms(1);
    }
    // what is missing is asked for once
    vf_now_ns += ms(20);
    const auto nack = s.e.jb->processNack();
    int lo = 0, hi = kPackets - 1;
    while (!s.have[lo]) lo++;
    while (!s.have[hi]) hi--;
    size_t at = 0;
    for (int i = lo; i <= hi; i++) if (!s.have[i]) { vf_assert(at < nack.size() && nack[at] == (uint16_t)(s.base + i), "a missing packet is asked for"); at++; }
    vf_assert(at == nack.size() && s.e.jb->processNack().empty(), "nothing else is, and only once");
    const int early = s.deque(); // those whose timestamp is before that of the first arrival
    if (kFrame[s.firstGiven] == kFrame[lo]) vf_assert(early == 0, "not before its time");
    // everything is due: all whole frames come out
    vf_now_ns += ms(1000);
    int whole = 0;
    for (int f = 0; f < 4; f++) whole += s.whole(f);
    vf_assert(early + s.deque() == whole, "every whole frame comes out, whatever is missing around it");
    // the same packets once more
    for (int i = 0; i < kPackets; i++) if (s.have[i]) s.give(i);
    s.e.invariant();
    vf_now_ns += ms(1000);
    vf_assert(s.deque() == 0, "a packet that comes again is ignored");
    vf_cover("end");
}
}
#define JB_SETUP() vfc_bytebuf(); vf_unroll("*", 40);
VF_HARNESS(jb_history) { JB_SETUP(); vf_bounded("a stream of four frames of one to three packets, three arrivals in any order"); history(3); }
VF_HARNESS(jb_history4) { JB_SETUP(); vf_bounded("a stream of four frames of one to three packets, four arrivals in any order"); history(4); }
VF_HARNESS(jb_history5) { JB_SETUP(); vf_bounded("a stream of four frames of one to three packets, five arrivals in any order"); history(5); }
VF_HARNESS(jb_interleaved)
{
    // arrivals and deliveries in any order, at any of some times
    JB_SETUP();
    vf_bounded("four arrivals, deliveries between any of them");
    Stream s;
    static const int order[4][4] = { { 0, 1, 2, 3 }, { 1, 3, 2, 4 }, { 2, 4, 3, 6 }, { 4, 5, 6, 3 } };
    const int o = (int)vf_case(vf_range(0, 3, "order"), 0, 3);
    for (int k = 0; k < 4; k++) {
        s.give(order[o][k]);
        s.have[order[o][k]] = true;
        s.e.invariant();
        vf_now_ns += ms(120 * vf_case(vf_range(0, 1, "wait"), 0, 1));
        s.deque();
        if (vf_fork(vf_bool("again"))) { s.give(order[o][k]); s.deque(); }
    }
    vf_cover("end");
}
VF_HARNESS(jb_reordered_start)
{
    // the packet that arrives first is not the first of the stream
    JB_SETUP();
    Env e(16);
    const uint32_t back = (uint32_t)vf_case(vf_range(0, 6, "back"), 0, 6) * 1500;
    e.arrive(1001, 90000, 0, 1);
    vf_now_ns += ms(5);
    e.arrive(1000, 90000 - back, 0, 0);
    e.invariant();
    vf_now_ns += ms(2000);
    vf_assert(e.jb->processDeque().size() == 2, "an earlier timestamp than the first one is due too");
    vf_cover("end");
}
VF_HARNESS(jb_lost)
{
    // a packet is lost, with and without retransmission; a retransmission stands for the packet it repeats
    JB_SETUP();
    const bool nack = vf_fork(vf_bool("nack"));
    Env e(16, nack);
    const uint16_t base = (uint16_t)(65530 + vf_case(vf_range(0, 9, "base"), 0, 9));
    e.arrive(base, 5000, 0, 10);
    e.arrive((uint16_t)(base + 2), 8000, 0, 12);
    const bool again = nack && vf_fork(vf_bool("again"));
    if (again) {
        const uint16_t osn = (uint16_t)(base + 1);
        const uint8_t b[4] = { (uint8_t)(osn >> 8), (uint8_t)osn, 0, 11 };
        e.jb->consume(std::make_shared<RtpPacket>(e.track, 2222u, (uint8_t)97, false, 0u, vf_u16("rtx"), 6500u, (uint8_t)0, RtpExtension(), ByteBuffer(b, 4)));
    }
    e.invariant();
    vf_now_ns += ms(2000);
    auto r = e.jb->processDeque();
    vf_assert(r.size() == (again ? 3u : 2u), "what is missing past its time does not block");
    for (size_t i = 0; i < r.size(); i++) {
        const uint8_t want = (uint8_t)(10 + i + (!again && i == 1));
        vf_assert(r[i]->data.size() == 1 && r[i]->data.data()[0] == want && (uint16_t)r[i]->seq_ext == (uint16_t)(base + want - 10), "in order");
    }
    vf_assert(e.jb->processNack().empty(), "nothing more is asked for");
    e.invariant();
    vf_cover("end");
}
VF_HARNESS(jb_outage)
{
    // many packets are lost at once: delivery goes on at the latest when the buffer has been idle for two seconds
    JB_SETUP();
    Env e(16);
    const uint16_t gap = vf_u16("gap");
    vf_assume(gap >= 1 && gap < 16000);
    e.arrive(1000, 5000, 0, 0);
    vf_now_ns += ms(500);
    vf_assert(e.jb->processDeque().size() == 1, "delivered");
    bool some = false;
    for (int k = 0; k < 8; k++) {
        vf_now_ns += ms(500);
        e.arrive((uint16_t)(1000 + gap + k), 5000 + 45000 * (k + 2), 0, (uint8_t)k);
        some = some || !e.jb->processDeque().empty();
    }
    vf_now_ns += ms(500);
    some = some || !e.jb->processDeque().empty();
    vf_assert(some, "packets after the gap are delivered");
    vf_cover("end");
}
VF_HARNESS(jb_timestamp_far)
{
    // no timestamp makes the arithmetic overflow
    JB_SETUP();
    Env e(16);
    e.arrive(1000, vf_u32("t1"), 0, 0);
    e.arrive(1001, vf_u32("t2"), 0, 1);
    e.invariant();
    vf_cover("end");
}
namespace {
uint64_t g_seqExt, g_tsExt;
uint64_t ext16(void*, uint16_t) { return g_seqExt; }
uint64_t ext32(void*, uint32_t) { return g_tsExt; }
// any state that satisfies the invariant; capacity 8
void anyState(Env& e, int maxLen, bool due)
{
    auto& jb = *e.jb;
    const uint64_t cap = e.cap;
    jb.mItemList = new JitterBufferItem*[cap]();
    jb.mMinSeq = 0x30000 + vf_case(vf_range(1, cap - 1, "at"), 1, cap - 1) / 2 * 3;
    const uint64_t len = vf_case(vf_range(0, maxLen, "len"), 0, maxLen);
    jb.mMaxSeq = jb.mMinSeq + len;
    jb.mBaseTime = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_now_ns - ms(5000)));
    jb.mBaseRtpTimestamp = 0x500000000ull;
    jb.mLastPacketTime = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_now_ns - ms(vf_fork(vf_bool("idle")) ? 2500 : 100)));
    for (uint64_t i = 0; i < len; i++) {
        auto it = jb.newItem();
        it->seq_ext = jb.mMinSeq + i;
        it->received = vf_fork(vf_bool("received"));
        it->nack_needed = !it->received;
        const auto t = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_now_ns + (due && vf_fork(vf_bool("due")) ? -ms(50) : ms(50))));
        it->when_dequeue = it->when_nack_abandon = it->when_nack_request = it->when_received = t;
        if (it->received) {
            it->kind = (PacketKind)vf_case(vf_range(0, 3, "kind"), 0, 3);
            it->rtp_timestamp_ext = 0x500000000ull + 3000 * (due ? i / 2 : i);
            const uint8_t b[2] = { (uint8_t)it->kind, (uint8_t)i };
            it->payload = ByteBuffer(b, 2);
        }
        jb.mItemList[it->seq_ext & (cap - 1)] = it;
    }
}
}
VF_HARNESS(jb_consume)
{
    // any buffer, any packet: the buffer is as it should be afterwards
    JB_SETUP();
    vf_bounded("capacity 8");
    if (vf_mode() != 1) return; // the contracts of the extended values have no native stand-in
    vf_stub("srtc::ExtendedValue<unsigned short>::extend(unsigned short)", (void*)&ext16);
    vf_stub("srtc::ExtendedValue<unsigned int>::extend(unsigned int)", (void*)&ext32);
    Env e(8);
    auto& jb = *e.jb;
    jb.mItemList = new JitterBufferItem*[8]();
    jb.mMinSeq = 0x30000 + vf_case(vf_range(0, 1, "at"), 0, 1) * 5;
    const uint64_t len = vf_case(vf_range(0, 8, "len"), 0, 8);
    jb.mMaxSeq = jb.mMinSeq + len;
    jb.mBaseTime = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_now_ns - ms(5000)));
    jb.mBaseRtpTimestamp = 0x500000000ull;
    jb.mLastPacketTime = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(vf_now_ns - ms(vf_fork(vf_bool("idle")) ? 2500 : 100)));
    for (uint64_t i = 0; i < len; i++) {
        auto it = jb.newItem();
        it->seq_ext = jb.mMinSeq + i;
        it->received = i & 1;
        it->rtp_timestamp_ext = it->received ? 0x500000000ull : 0;
        it->kind = it->received ? PacketKind::Start : PacketKind::Standalone;
        jb.mItemList[it->seq_ext & 7] = it;
    }
    e.invariant();
    const uint64_t min = jb.mMinSeq, max = jb.mMaxSeq;
    const int64_t o = (int64_t)vf_case(vf_range(0, 24, "o"), 0, 24) - 10;
    g_seqExt = jb.mMinSeq + o;
    g_tsExt = 0x500000000ull + 3000;
    e.arrive((uint16_t)g_seqExt, (uint32_t)g_tsExt, (uint8_t)vf_case(vf_range(0, 1, "kind"), 0, 1), 9);
    e.invariant();
    const bool in = g_seqExt >= jb.mMinSeq && g_seqExt < jb.mMaxSeq;
    if (in) vf_assert(jb.mItemList[g_seqExt & 7]->received, "held");
    if (g_seqExt >= min && g_seqExt < max) {
        vf_assert(in && jb.mMinSeq == min && jb.mMaxSeq == max, "a missing packet fills its place");
        const bool was = (g_seqExt - min) & 1;
        vf_assert((jb.mItemList[g_seqExt & 7]->payload.size() == 2) == !was, "a packet that came already is not replaced");
    }
    if (g_seqExt == max && len < 8) vf_assert(in, "the next packet is taken while there is room");
    vf_cover("end");
}
VF_HARNESS(jb_deque)
{
    // any buffer: what comes out is whole and in order, the rest is as it should be
    JB_SETUP();
    vf_bounded("capacity 4, up to 3 items of any kind");
    Env e(4);
    anyState(e, 3, true);
    e.invariant();
    const uint64_t min = e.jb->mMinSeq;
    auto r = e.jb->processDeque();
    e.invariant();
    uint64_t at = min;
    vf_assert(r.size() == (size_t)e.depack->frames, "each frame extracted comes out");
    for (int i = 0; i < e.depack->frames; i++) {
        vf_assert(e.depack->first[i] >= at, "in order, no packet twice");
        at = e.depack->first[i] + e.depack->count[i];
        vf_assert(r[i]->seq_ext == e.depack->first[i] && r[i]->data.size() == e.depack->count[i], "its frame");
    }
    vf_assert(at <= e.jb->mMinSeq, "what came out is no longer held");
    if (e.depack->frames) vf_cover("frames");
}
