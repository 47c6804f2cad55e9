// PROPERTY: C21
// TUS: src/util.cpp src/byte_buffer.cpp
// The list of missing sequence numbers and the NACK items (RFC 4585 6.2.1) it is compressed into.
#include "vf.h"
#include "stub_net.h"
#include "srtc/util.h"
#include <vector>
using namespace srtc;
namespace {
const uint16_t *g_seq, *g_blp, *g_in; uint64_t g_nin; uint64_t g_k;
uint16_t g_x; // some sequence number
bool covers(uint64_t item, uint16_t x) { const uint16_t d = (uint16_t)(x - g_seq[item]); return d == 0 || (d <= 16 && (g_blp[item] >> ((d - 1) & 31) & 1)); }
}
VF_HARNESS(nack_compress)
{
    // every list of up to the stated length in any order without repetitions, every number x: x is named by the items exactly when it is in the list
    const uint64_t n = vf_case(vf_range(0, 5, "n"), 0, 5);
    std::vector<uint16_t> in;
    in.reserve(5);
    for (uint64_t i = 0; i < n; i++) { in.push_back(vf_u16("seq")); for (uint64_t j = 0; j < i; j++) vf_assume(in[i] != in[j]); }
    uint16_t seq[5], blp[5];
    const uint64_t out = compressNackList(in, seq, blp);
    vf_assert(out <= n && (out > 0) == (n > 0), "at most one item per number");
    const uint16_t x = vf_u16("x");
    bool named = false, wanted = false;
    for (uint64_t i = 0; i < out; i++) { g_seq = seq; g_blp = blp; named |= covers(i, x); }
    for (uint64_t i = 0; i < n; i++) wanted |= in[i] == x;
    vf_assert(named == wanted, "the items name exactly the missing numbers");
    vf_cover("end");
    vf_bounded("lists of up to five numbers");
}
