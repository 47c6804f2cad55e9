// Annex B splitting, for the parser in namespace srtc::NS: start codes written out on the bytes.
#pragma once
#include "vf.h"
#include "bytebuf_model.h"
#include <new>
using namespace srtc;
namespace {
using P = srtc::NS::NaluParser;
const uint8_t* g_d; uint64_t g_n, g_k; const P* g_p;
// (one comparison per start code instead of a chain of branches)
bool sc4(uint64_t q) { if (q + 4 >= g_n) return false; return (g_d[q] | g_d[q + 1] | g_d[q + 2] | (g_d[q + 3] ^ 1)) == 0; }
bool sc3(uint64_t q) { if (q + 3 >= g_n) return false; return (g_d[q] | g_d[q + 1] | (g_d[q + 2] ^ 1)) == 0; }
bool sc(uint64_t q) { return sc4(q) | sc3(q); }
// a search that began at `from` and stopped at `at`; g_k is any position
bool searched(uint64_t from, uint64_t at) { if ((g_k < from) | (g_k >= at)) return true; return !sc(g_k); }
bool at_unit(uint64_t pos, uint64_t skip)
{
    if (pos >= g_n) return (pos == g_n) & (skip == 0);
    const bool four = sc4(pos);
    return four ? skip == 4 : (sc3(pos) & (skip == 3));
}
// proof hint: searching forward
bool searching(uint64_t pos) { return searched(g_p->mPos + g_p->mSkip, pos); }
bool valid(const P& p)
{
    const bool ok = (p.mBuf == g_d) & (p.mSize == g_n) & (p.mPos <= p.mSize) & (p.mNextPos <= p.mSize) & (p.mNextPos >= p.mPos + p.mSkip) & (p.mSkip <= 4) & (p.mNextSkip <= 4);
    if (!ok) return false;
    return at_unit(p.mPos, p.mSkip) && at_unit(p.mNextPos, p.mNextSkip) && searched(p.mPos + p.mSkip, p.mNextPos);
}
bool valid0() { return valid(*g_p); }
bool first0() { return searched(0, g_p->mPos); }
// contract of find_next_nalu (nalu_find)
uint64_t g_from, g_at, g_skip;
bool found0() { return at_unit(g_at, g_skip); }
bool found1() { return searched(g_from, g_at); }
size_t find_contract(const uint8_t* buf, size_t pos, size_t end, size_t& out_skip)
{
    vf_assert(buf == g_d && end == g_n && pos <= end, "searched inside the frame");
    g_from = pos; g_at = vf_any_u32(); g_skip = vf_any_u8();
    vf_assume(g_at >= pos && g_at <= end);
    vf_assume(vf_pred(found0));
    vf_assume(vf_pred(found1));
    out_skip = g_skip;
    return g_at;
}
uint64_t g_start;
bool searching_from(uint64_t pos) { return searched(g_start, pos); }
void setup(void* store)
{
    __builtin_memset(store, 0, sizeof(P));
    g_p = (const P*)store;
    g_n = vf_range(0, 0xffffff, "n");
    g_k = vf_range(0, 0xffffff, "k");
}
}
// (if there is no such function the parser is verified with whatever it calls)
static size_t find_next_nalu(...) { return ~0ull; }
VF_HARNESS(nalu_find)
{
    vf_unroll("find_next_nalu", -1); vf_inv1(searching_from);
    g_n = vf_range(0, 0xffffff, "n"); g_k = vf_range(0, 0xffffff, "k"); g_start = vf_range(0, 0xffffff, "from");
    vf_assume(g_start <= g_n);
    g_d = (const uint8_t*)vf_bytes(g_n, "frame");
    g_from = g_start;
    size_t skip = 77;
    g_at = find_next_nalu(g_d, g_start, g_n, skip);
    vf_cover("end");
    if (g_at == ~0ull) return;
    g_skip = skip;
    vf_assert(g_at >= g_start && g_at <= g_n, "inside the frame");
    vf_assert(vf_pred(found0), "at a start code, or at the end");
    vf_assert(vf_pred(found1), "the first one");
}
#define CFG vfc_bytebuf(); vf_unroll("find_next_nalu", -1); vf_inv1(searching)
VF_HARNESS(nalu_first)
{
    CFG;
    vf_stub("(anonymous namespace)::find_next_nalu(unsigned char const*, unsigned long, unsigned long, unsigned long&)", (void*)&find_contract);
    alignas(P) uint8_t store[sizeof(P)];
    setup(store);
    ByteBuffer b; b.mBuf = (uint8_t*)vf_bytes(g_n, "frame"); b.mLen = b.mCap = g_n;
    g_d = b.data();
    auto p = new (store) P(b);
    vf_assert(vf_pred(first0), "nothing before the first unit");
    vf_assert(vf_pred(valid0), "the parser is at the first start code, the next one is the end of the unit");
    if (*p) vf_cover("unit"); else vf_cover("none");
    b.mBuf = nullptr; b.mLen = b.mCap = 0;
}
VF_HARNESS(nalu_next)
{
    CFG;
    alignas(P) uint8_t store[sizeof(P)];
    setup(store);
    ByteBuffer b; b.mBuf = (uint8_t*)vf_bytes(g_n, "frame"); b.mLen = b.mCap = g_n;
    g_d = b.data();
    auto p = new (store) P(ByteBuffer());
    const_cast<const uint8_t*&>((const uint8_t* const&)p->mBuf) = g_d; const_cast<size_t&>((const size_t&)p->mSize) = g_n;
    p->mPos = vf_range(0, 0xffffff, "pos"); p->mSkip = vf_range(0, 4, "skip"); p->mNextPos = vf_range(0, 0xffffff, "npos"); p->mNextSkip = vf_range(0, 4, "nskip");
    vf_assume(vf_pred(valid0));
    const uint64_t pos = p->mPos, skip = p->mSkip, npos = p->mNextPos, nskip = p->mNextSkip;
    vf_assert(p->isAtStart() == (pos == 0) && p->isAtEnd() == (npos >= g_n) && bool(*p) == (pos < g_n), "position queries");
    if (pos < g_n) {
        vf_assert(p->currNalu() == g_d + pos && p->currNaluSize() == npos - pos, "unit with its start code");
        vf_assert(p->currData() == g_d + pos + skip && p->currDataSize() == npos - pos - skip, "unit without its start code");
        vf_assert(pos + skip < g_n && p->currType() == NALTYPE(g_d[pos + skip]), "unit type");
        vf_cover("unit");
    }
    p->next();
    vf_assert(p->mPos == npos && p->mSkip == nskip, "the next unit starts where this one ended");
    vf_assert(vf_pred(valid0), "its end is the next start code or the end of the frame");
    vf_assert(pos >= g_n || p->mPos > pos, "moves forward");
    b.mBuf = nullptr; b.mLen = b.mCap = 0;
}
