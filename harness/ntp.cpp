// PROPERTY: C26
// TUS: src/util.cpp src/byte_buffer.cpp
// NATIVE: no
// ASSUME: clock_gettime fills a timespec with 0 <= tv_nsec < 1e9; the fraction is computed in IEEE double arithmetic
// NTP wall clock time and its conversions.
#include "vf.h"
#include "stub_net.h"
#include "srtc/util.h"
#include <ctime>
using namespace srtc;
namespace { int64_t g_sec, g_nsec; bool g_real, g_mono; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    g_real = id == CLOCK_REALTIME; g_mono = id == CLOCK_MONOTONIC;
    ts->tv_sec = g_sec; ts->tv_nsec = g_nsec;
    return 0;
}
VF_HARNESS(ntp_seconds)
{
    g_sec = vf_u32("sec");
    g_nsec = vf_u32("nsec");
    vf_assume(g_nsec < 1000000000);
    NtpTime t;
    getNtpTime(t);
    vf_assert(g_real, "wall clock");
    vf_assert(t.seconds == (uint32_t)(g_sec + 2208988800u), "seconds since 1900, modulo the NTP era");
    vf_cover("end");
}
VF_HARNESS(ntp_fraction)
{
    // concrete instants spread over the second, every one of them with the exact fraction
    g_sec = 1700000000;
    vf_unroll("*", 100000);
    bool ok = true, back = true;
    for (uint32_t i = 0; i < 2004; i++) {
        g_nsec = i < 2000 ? (int64_t)i * 500009 % 1000000000 : i == 2000 ? 0 : i == 2001 ? 1 : i == 2002 ? 999999999 : 999999000;
        NtpTime t;
        getNtpTime(t);
        const uint64_t lo = (uint64_t)t.fraction * 1000000000ull, x = (uint64_t)g_nsec << 32;
        ok &= lo <= x && x - lo < 1000000000ull + 1000;
        const int64_t us = getNtpUnixMicroseconds(t), want = g_sec * 1000000 + g_nsec / 1000;
        back &= us == want || us + 1 == want;
    }
    vf_assert(ok, "fraction of the second in units of 2^-32");
    vf_assert(back, "there and back: the same microsecond, or the one before (both conversions round down)");
    vf_cover("end");
    vf_bounded("2004 instants spread over the second (the multiplication is in double precision)");
}
VF_HARNESS(ntp_to_unix)
{
    NtpTime t;
    t.seconds = vf_u32("sec"); t.fraction = vf_u32("frac");
    const int64_t us = getNtpUnixMicroseconds(t);
    const int64_t in_second = us - ((int64_t)t.seconds - 2208988800ll) * 1000000;
    vf_assert(in_second >= 0 && in_second < 1000000, "the right second, before 1970 too");
    const uint64_t f = (uint64_t)t.fraction * 1000000ull;
    vf_assert(((uint64_t)in_second << 32) <= f && f - ((uint64_t)in_second << 32) < (1ull << 32), "the microsecond the instant lies in");
    vf_assert(getNtpTimeMiddleMarker(t) == (t.seconds % 65536u * 65536u + t.fraction / 65536u), "the middle 32 bits");
    vf_cover("end");
}
VF_HARNESS(stable_time)
{
    g_sec = vf_u32("sec");
    g_nsec = vf_u32("nsec");
    vf_assume(g_nsec < 1000000000);
    vf_assert(getStableTimeMicros() == g_sec * 1000000 + g_nsec / 1000 && g_mono, "monotonic clock in microseconds");
    vf_cover("end");
}
