// PROPERTY: C01
// TUS: src/replay_protection.cpp
// SRTP/SRTCP replay window: contracts of ReplayProtection::canProceed / set over its abstract view
//   (newest accepted value, set of accepted values inside the window).
#include "vf.h"
#include "srtc/replay_protection.h"
#include <new>
using srtc::ReplayProtection;

namespace {
ReplayProtection* g_rp;
uint32_t g_k, g_old, g_v;
bool g_oldbit;
uint32_t g_mod;

bool bitOf(const ReplayProtection* rp, uint32_t v) { return (rp->mStorage[(v / 8) % rp->mStorageSize] >> (v & 7)) & 1; }
uint32_t fwd(uint32_t max, uint32_t from, uint32_t to) { return (to - from) & max; }

// invariant of the clearing loop: a slot is cleared exactly when a value mapping to it has been passed over
bool clearedExactly()
{
    const uint32_t done = fwd(g_rp->mMaxPossibleValue, g_old, g_rp->mCurMax); // values old+1 .. cur-1 are cleared, cur is next
    const uint32_t dk = fwd(g_rp->mMaxPossibleValue, g_old, g_k);
    if (g_rp->mCurMax > g_rp->mMaxPossibleValue) return false;
    if (done == 0 || done > fwd(g_rp->mMaxPossibleValue, g_old, g_v)) return false;
    // slots repeat with period size; the loop passes over at most size / 4 values
    const uint32_t slot = dk & (g_mod - 1);
    const bool passed = (slot >= 1) & (slot < done);
    return bitOf(g_rp, g_k) == (!passed & g_oldbit);
}
uint64_t distanceLeft() { return fwd(g_rp->mMaxPossibleValue, g_rp->mCurMax, g_v); }
bool storageShape()
{
    return g_rp->mStorage != nullptr;
}

// an arbitrary reachable representation
ReplayProtection* arbitrary(uint32_t max, uint32_t size, void* mem)
{
    auto rp = new (mem) ReplayProtection(max, size);
    rp->mStorage = (uint8_t*)vf_bytes((size + 7) / 8, "storage");
    rp->mCurMax = vf_u32("cur");
    vf_assume(rp->mCurMax <= max);
    vf_assume(bitOf(rp, rp->mCurMax)); // representation invariant: the newest value is marked
    g_mod = size;
    return rp;
}
void setContract(uint32_t max, uint32_t size)
{
    alignas(ReplayProtection) static char mem[sizeof(ReplayProtection)];
    auto rp = arbitrary(max, size, mem);
    g_rp = rp;
    g_old = rp->mCurMax;
    const uint32_t v = vf_u32("v"), k = vf_u32("k");
    vf_assume(v <= max && k <= max);
    g_k = k;
    g_v = v;
    const uint32_t f = fwd(max, g_old, v), back = g_old - v;
    g_oldbit = bitOf(rp, k);
    const bool vbit = bitOf(rp, v);

    // canProceed: ahead by at most a quarter window, or inside the window, older and not seen before
    const bool ahead = (f >= 1) & (f <= size / 4);
    const bool inside = (v < g_old) & (back < size);
    const bool ok = rp->canProceed(v);
    vf_assert(ok == (ahead | (inside & !vbit)), "canProceed decides exactly: new enough and not seen before");
    vf_assert((rp->mCurMax == g_old) & (bitOf(rp, k) == g_oldbit), "canProceed changes nothing");
    vf_assume(ok);
    const bool r = rp->set(v);
    vf_assert(r, "set succeeds on an acceptable value");
    vf_assert(rp->mCurMax == (ahead ? v : g_old), "newest value moves forward exactly when ahead");
    vf_assert(bitOf(rp, v), "the accepted value is marked");
    vf_assert(!rp->canProceed(v), "an accepted value is not accepted again");
    // frame: every other value k that is still inside the new window keeps its status;
    // values skipped over are unseen
    const uint32_t dk = fwd(max, k, rp->mCurMax); // distance behind the newest value
    if ((k != v) & (dk < size)) {
        const bool skipped = ahead & (dk < f);
        vf_assert(bitOf(rp, k) == (!skipped & g_oldbit), "other values in the window keep their status");
        if (skipped) vf_cover("skipped value");
        else if (g_oldbit) vf_cover("kept seen");
        else vf_cover("kept unseen");
    }
    if (ahead) vf_cover("ahead"); else vf_cover("inside");
}
}
VF_HARNESS(replay_set_srtp)
{
    vf_inv0(clearedExactly);
    vf_inv0(storageShape);
    vf_measure(distanceLeft);
    setContract(0xffff, 2048);
}
VF_HARNESS(replay_set_srtcp)
{
    vf_inv0(clearedExactly);
    vf_inv0(storageShape);
    vf_measure(distanceLeft);
    setContract(0xffffffffu, 2048);
}
VF_HARNESS(replay_first)
{
    uint32_t max = vf_bool("wide") ? 0xffffffffu : 0xffffu;
    const uint32_t size = 2048;
    ReplayProtection rp(max, size);
    uint32_t v = vf_u32("v"), k = vf_u32("k");
    vf_assume(v <= max && k <= max);
    vf_assert(rp.canProceed(v), "everything is acceptable at first");
    vf_assert(rp.set(v), "first value accepted");
    vf_assert(!rp.canProceed(v), "first value not accepted twice");
    vf_assert(rp.mCurMax == v && bitOf(&rp, v), "first value is the newest");
    if (fwd(max, k, v) < size && k != v) vf_assert(!bitOf(&rp, k), "nothing else is marked");
    vf_cover("end");
}
