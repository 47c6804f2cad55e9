// PROPERTY: C26
// TUS: src/util.cpp src/byte_buffer.cpp src/sender_reports_history.cpp src/receiver_reference_time_reports_history.cpp
// Matching an echoed report time stamp with the report it came from.
#include "vf.h"
#include "stub_net.h"
#include "srtc/util.h"
#include "srtc/sender_reports_history.h"
#include "srtc/receiver_reference_time_reports_history.h"
using namespace srtc;
namespace {
uint32_t marker(const NtpTime& t) { return (t.seconds & 0xffff) << 16 | t.fraction >> 16; }
// the state of a track's history is a list of at most 16 reports; every such list comes from saving its reports in order
template <class H> void one(uint64_t max, bool far)
{
    H h;
    const uint64_t n = vf_case(vf_range(0, max, "n"), 0, max);
    const uint32_t ssrc = far ? 0xfffffff0u : 5, other = 7;
    NtpTime r[20], o;
    int64_t when[20];
    o.seconds = vf_u32("os"); o.fraction = vf_u32("of");
    for (uint64_t i = 0; i < n; i++) {
        r[i].seconds = vf_u32("s"); r[i].fraction = vf_u32("f");
        when[i] = vf_now_ns;
        h.save(ssrc, r[i]);
        vf_now_ns += 1000000000; // reports are a second apart
        if (i == 0) h.save(other, o);
    }
    vf_now_ns += 1000000000;
    const uint32_t m = vf_u32("m");
    const uint64_t first = n > 16 ? n - 16 : 0; // older reports are forgotten
    const uint64_t at = vf_case(vf_range(first, n, "at"), first, n);
    for (uint64_t i = first; i < n && i <= at; i++) vf_assume((marker(r[i]) == m) == (i == at)); // the oldest one with this time stamp, or none
    vf_assert(!h.calculateRtt(9, m, 0), "no report was sent for this stream");
    const auto rtt = h.calculateRtt(ssrc, m, 0);
    vf_assert(rtt.has_value() == (at < n), "a time stamp matches exactly when a remembered report of this stream had it");
    if (at < n) {
        const float el = (float)((vf_now_ns - when[at]) / 1000) / 1000.0f; // milliseconds since it was sent
        vf_assert(*rtt > 1.99f * el && *rtt < 2.01f * el, "measured from the report that was echoed");
        vf_cover("match");
        bool more = false;
        for (uint64_t i = first; i < n; i++) more |= i != at && marker(r[i]) == m;
        if (n <= 4 && vf_fork(!more)) vf_assert(!h.calculateRtt(ssrc, m, 0), "a report is answered once");
        for (uint64_t i = first; i < n && n <= 4; i++) {
            if (i != at && vf_fork(marker(r[i]) != m)) { vf_assert(h.calculateRtt(ssrc, marker(r[i]), 0).has_value(), "the other reports are still known"); break; }
        }
    }
    if (n > 0) {
        vf_assert(h.calculateRtt(other, marker(o), 0).has_value(), "other streams are not touched");
        vf_assert(!h.calculateRtt(other, marker(o), 0), "a report is answered once (2)");
    }
}
template <class H> void delayed()
{
    // the delay the peer reports (units of 1/65536 s) is taken off; a delay longer than the time since the report gives nothing
    H h;
    NtpTime r; r.seconds = vf_u32("s"); r.fraction = vf_u32("f");
    h.save(5, r);
    static const uint32_t el_ms[] = { 0, 1, 20, 999, 1500, 70000 };
    static const uint32_t delay[] = { 0, 1, 65, 66, 1310, 1311, 65535, 65536, 98304, 4587519, 4587521, 0x7fffffff, 0xffffffff };
    const uint32_t e = el_ms[vf_case(vf_range(0, 5, "e"), 0, 5)], d = delay[vf_case(vf_range(0, 12, "d"), 0, 12)];
    vf_now_ns += (int64_t)e * 1000000;
    const auto rtt = h.calculateRtt(5, marker(r), d);
    const int64_t net_us = (int64_t)e * 1000 - (int64_t)d * 1000000 / 65536;
    vf_assert(rtt.has_value() == (net_us >= 0), "nothing when the delay is longer than the time since the report");
    if (net_us >= 0) {
        const float x = (float)net_us / 1000.0f;
        vf_assert(*rtt >= 1.99f * x && *rtt <= 2.01f * x, "time since the report without the peer's delay");
        vf_cover("value");
    }
    vf_bounded("six elapsed times, thirteen delays (the result is a float)");
}
}
VF_HARNESS(sender_reports) { one<SenderReportsHistory>(17, false); }
VF_HARNESS(rtrr_reports) { one<ReceiverReferenceTimeReportsHistory>(17, true); }
VF_HARNESS(sender_reports_delay) { delayed<SenderReportsHistory>(); }
VF_HARNESS(rtrr_reports_delay) { delayed<ReceiverReferenceTimeReportsHistory>(); }
template <class H> static void full(uint32_t ssrc)
{
    // more reports than are remembered
    H h;
    NtpTime r[18];
    for (uint64_t i = 0; i < 18; i++) { r[i].seconds = vf_u32("s"); r[i].fraction = vf_u32("f"); }
    for (uint64_t i = 0; i < 18; i++) for (uint64_t j = 0; j < i; j++) vf_assume(marker(r[i]) != marker(r[j]));
    for (uint64_t i = 0; i < 18; i++) h.save(ssrc, r[i]);
    vf_now_ns += 1000000000;
    const uint64_t k = vf_case(vf_range(8, 17, "k"), 8, 17);
    vf_assert(h.calculateRtt(ssrc, marker(r[k]), 0).has_value(), "recent reports are known");
    vf_assert(!h.calculateRtt(ssrc, marker(r[k]), 0).has_value(), "each one once");
    const uint64_t sz = h.mTrackMap.begin()->second.reportList.size();
    vf_assert(sz <= 64, "the history does not grow without bound");
    vf_cover("end");
}
VF_HARNESS(sender_reports_full) { full<SenderReportsHistory>(1); }
VF_HARNESS(rtrr_reports_full) { full<ReceiverReferenceTimeReportsHistory>(2); }
