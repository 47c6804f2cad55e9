// PROPERTY: C05
// TUS: src/extended_value.cpp
// Sequence number / timestamp extension: ExtendedValue<T>::extend against exact arithmetic on the unwrapped counter.
#include "vf.h"
#include "srtc/extended_value.h"
#include <new>
using namespace srtc;
namespace {
template <typename T, typename S>
void extendContract()
{
    using EV = ExtendedValue<T>;
    const uint64_t inc = (uint64_t)(T)-1 + 1;
    const uint64_t quarter = ((T)-1) / 4;
    alignas(EV) static char mem[sizeof(EV)];
    EV* ev = new (mem) EV();
    // arbitrary state after at least one value: invariants of the representation
    const uint64_t hi = vf_u64("hi");
    vf_assume(hi >= inc && (hi & (inc - 1)) == 0 && hi < (1ull << 62));
    const T last = (T)vf_u32("last");
    const int64_t since = (int64_t)vf_u64("since"); // ns since the last rollover (or the first value)
    vf_assume(since >= 0 && since < (1ll << 60));
    const int64_t rt = (int64_t)vf_u64("rt");
    vf_assume(rt >= 0 && rt < (1ll << 60));
    ev->mRolloverValue = hi;
    ev->mLastValue = last;
    ev->mRolloverTime = std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(rt));
    vf_now_ns = rt + since;
    const bool recent = since <= 1000000000ll;
    const uint64_t before = ev->get().value();
    vf_assert(before == (hi | last), "the newest value is available in extended form");

    const T src = (T)vf_u32("src");
    const uint64_t r = ev->extend(src);
    vf_assert((T)r == src, "the extended value keeps the low bits");
    const S d = (S)(T)(src - last);
    const bool near = (d >= 0 ? (uint64_t)d : (uint64_t)(-(int64_t)d)) <= quarter;
    if (near) {
        const bool crossesBack = d < 0 && src > last;
        const bool crossesFwd = d >= 0 && src < last;
        if (d >= 0) {
            vf_assert(r == before + (uint64_t)d, "a forward step is unwrapped exactly");
            vf_assert(ev->get().value() == r, "a forward step becomes the newest value");
            if (crossesFwd) { vf_assert(ev->mRolloverTime.time_since_epoch().count() == vf_now_ns, "a rollover is timed"); vf_cover("rollover"); }
            else vf_cover("forward");
        } else if (!crossesBack) {
            vf_assert(r == before - (uint64_t)(-(int64_t)d), "a reordered value is unwrapped exactly");
            vf_cover("back");
        } else if (recent) {
            vf_assert(r == before - (uint64_t)(-(int64_t)d), "a reordered value from before a recent rollover is unwrapped exactly");
            vf_assert(ev->get().value() == before, "a value from before the rollover does not undo the rollover");
            vf_cover("back over rollover");
        }
    }
    // frame: the representation stays consistent, and the newest value is never moved by more than one wrap
    vf_assert((ev->mRolloverValue & (inc - 1)) == 0 && ev->mRolloverValue >= hi && ev->mRolloverValue - hi <= inc, "high part moves by at most one wrap");
    vf_assert(r + 2 * inc > before && r < before + 2 * inc, "an extended value is within two wraps of the newest one");
}
template <typename T>
void firstContract()
{
    ExtendedValue<T> ev;
    vf_assert(!ev.get().has_value(), "no value at first");
    const T src = (T)vf_u32("src");
    const uint64_t r = ev.extend(src);
    vf_assert((T)r == src, "first: low bits");
    vf_assert(r >= (uint64_t)(T)-1 + 1, "first: room for a reordered earlier value");
    vf_assert(ev.get().has_value() && ev.get().value() == r, "first: remembered");
    const T s2 = (T)vf_u32("src2");
    const uint64_t r2 = ev.extend(s2);
    vf_assert((T)r2 == s2, "second: low bits");
    vf_assert(r2 != r || src == s2, "different values extend differently");
    vf_cover("end");
}
}
VF_HARNESS(extend16) { extendContract<uint16_t, int16_t>(); }
VF_HARNESS(extend32) { extendContract<uint32_t, int32_t>(); }
VF_HARNESS(extend_first16) { firstContract<uint16_t>(); }
VF_HARNESS(extend_first32) { firstContract<uint32_t>(); }
