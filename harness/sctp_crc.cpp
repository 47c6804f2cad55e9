// PROPERTY: C12
// TUS: src/sctp/sctp_crc32.cpp
// The optimised CRC-32C against its bitwise definition (RFC 4960 appendix B: reflected polynomial 82F63B78).
#include "vf.h"
#include "sctp_crc32.h"
using namespace srtc::sctp;
namespace {
uint32_t bitwise(uint32_t c, uint8_t b)
{
    c ^= b;
    for (int i = 0; i < 8; i++) {
        uint32_t m = c & 1; // all ones if the low bit is set
        m ^= m << 1; m ^= m << 2; m ^= m << 4; m ^= m << 8; m ^= m << 16;
        c = c >> 1 ^ (m & 0x82F63B78u);
    }
    return c;
}
void upTo(uint64_t lo, uint64_t hi)
{
    vf_gf2();
    vf_unroll("*", 80);
    const uint64_t n = vf_case(vf_range(lo, hi, "n"), lo, hi), at = vf_case(vf_range(0, 3, "at"), 0, 3); // at: alignment
    auto d = (const uint8_t*)vf_bytes(n + at, "data") + at;
    const uint32_t start = vf_u32("crc");
    uint32_t c = start;
    for (uint64_t i = 0; i < n; i++) c = bitwise(c, d[i]);
    const uint32_t r = crc32c_update(start, d, n);
    vf_assert(r == c, "the checksum continues over exactly these bytes, as the bitwise definition");
    vf_assert(crc32c_finalize(r) == ~c, "and is inverted at the end");
    vf_assert(crc32c(d, n) == crc32c_finalize(crc32c_update(0xffffffffu, d, n)), "in one go or in parts");
    vf_cover("end");
    vf_bounded("up to 34 bytes (main loop up to three times, every head and tail)");
}
}
VF_HARNESS(crc_upto12) { upTo(0, 12); }
VF_HARNESS(crc_upto22) { upTo(13, 22); }
VF_HARNESS(crc_upto34) { upTo(23, 34); }
VF_HARNESS(crc_every_byte)
{
    // one byte value at one place among zeros: every byte value at every place of a word
    vf_unroll("*", 400);
    const uint64_t at = 0, p = vf_case(vf_range(0, 15, "p"), 0, 15);
    alignas(8) uint8_t m[24] = {};
    bool ok = true;
    for (int v = 1; v < 256; v++) {
        m[at + p] = (uint8_t)v;
        uint32_t c = 0xffffffff;
        for (int i = 0; i < 20; i++) c = bitwise(c, m[at + i]);
        ok &= crc32c(m + at, 20) == ~c;
    }
    vf_assert(ok, "the bitwise definition");
    vf_cover("end");
    vf_bounded("messages of 20 bytes of which one is not zero");
}
VF_HARNESS(crc_safe)
{
    // any length, any alignment: reads nothing but these bytes
    vf_unroll("crc32c_compute_internal", 4);
    vf_unroll("crc32c_sb8_64bit", -1); vf_unroll("crc32c_sb8_64bit#2", -1); vf_unroll("crc32c_sb8_64bit#3", -1);
    const uint64_t n = vf_range(0, 70000, "n"), at = vf_case(vf_range(0, 3, "at"), 0, 3);
    auto d = (const uint8_t*)vf_bytes(n + at, "data") + at;
    (void)crc32c_update(vf_u32("crc"), d, n);
    vf_cover("end");
}
