// PROPERTY: C24
// TUS: src/rtp_time_source.cpp
// ASSUME: frame times within +-2^44 us of zero (half a year either way), clock rate 8000, 48000 or 90000
// RTP media timestamps follow the presentation times without cumulative drift.
#include "vf.h"
#include "stub_random.h"
#include "srtc/rtp_time_source.h"
#include <new>
using namespace srtc;
namespace {
int64_t time_(const char* n)
{
    const int64_t v = (int64_t)vf_u64(n);
    vf_assume(v > -(1ll << 44) && v < (1ll << 44));
    return v;
}
uint32_t rate() { const uint64_t i = vf_case(vf_range(0, 2, "rate"), 0, 2); return i == 0 ? 8000 : i == 1 ? 48000 : 90000; }
uint32_t ticks(int64_t us, uint32_t r) { return (uint32_t)(us * (int64_t)r / 1000000); }
void advance(const char* n) { const uint64_t d = vf_u64(n); vf_assume(d < (1ull << 50)); vf_now_ns += (int64_t)d; }
}
VF_HARNESS(timestamps_follow_pts)
{
    const uint32_t r = rate();
    RtpTimeSource ts(r);
    const int64_t p0 = time_("p0"), p1 = time_("p1"), p2 = time_("p2");
    const uint32_t t0 = ts.getFrameTimestamp(p0);
    const uint32_t t1 = ts.getFrameTimestamp(p1);
    if (p1 >= p0) { vf_assert(t1 - t0 == ticks(p1 - p0, r), "timestamp advances with the presentation time"); vf_cover("second"); }
    else vf_assert(t1 == t0, "time going backwards keeps the timestamp");
    const uint32_t t2 = ts.getFrameTimestamp(p2);
    if (p1 >= p0 && p2 >= p1) { vf_assert(t2 - t0 == ticks(p2 - p0, r), "no drift: distance to the first frame is exact"); vf_cover("third"); }
    if (p1 >= p0 && p2 < p1) vf_assert(t2 == t1, "time going backwards keeps the timestamp (2)");
}
VF_HARNESS(history_independent)
{
    // frames in between leave no trace: the state after p0, p1, p2 is the state after p0, p2 (so after any history)
    const uint32_t r = rate();
    alignas(RtpTimeSource) static char ma[sizeof(RtpTimeSource)], mb[sizeof(RtpTimeSource)];
    auto a = new (ma) RtpTimeSource(r);
    auto b = new (mb) RtpTimeSource(r);
    const int64_t p0 = time_("p0"), p1 = time_("p1"), p2 = time_("p2");
    vf_assume(p0 <= p1 && p1 <= p2);
    vf_assume(a->mCurrRtp == b->mCurrRtp); // same random start
    const uint32_t a0 = a->getFrameTimestamp(p0), b0 = b->getFrameTimestamp(p0);
    vf_assert(a0 == b0, "same start");
    (void)a->getFrameTimestamp(p1);
    advance("d");
    const uint32_t a2 = a->getFrameTimestamp(p2), b2 = b->getFrameTimestamp(p2);
    vf_assert(a2 == b2, "same timestamp whatever came in between");
    vf_assert(a->getFrameTimestamp(p2 - 1) == a2 && b->getFrameTimestamp(p2 - 1) == b2, "newest frame time is remembered");
    const int64_t p3 = time_("p3");
    vf_assert(a->getFrameTimestamp(p3) == b->getFrameTimestamp(p3), "same timestamps ever after");
    advance("d2");
    vf_assert(a->getCurrentTimestamp() == b->getCurrentTimestamp(), "same clock ever after");
    vf_cover("end");
}
VF_HARNESS(current_timestamp)
{
    // sender report clock: extrapolates the newest frame's timestamp by the wall clock
    const uint32_t r = rate();
    RtpTimeSource ts(r);
    const int64_t p0 = time_("p0"), p1 = time_("p1");
    vf_assume(p1 >= p0);
    (void)ts.getFrameTimestamp(p0);
    advance("d0");
    const uint32_t t1 = ts.getFrameTimestamp(p1);
    const uint64_t d = vf_u64("d1");
    vf_assume(d < (1ull << 50));
    vf_now_ns += (int64_t)d;
    vf_assert(ts.getCurrentTimestamp() == t1 + ticks((int64_t)(d / 1000), r), "current timestamp is the newest frame's plus the elapsed time");
    vf_cover("end");
}
