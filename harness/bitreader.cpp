// PROPERTY: C16
// TUS: src/bit_reader.cpp
#include "vf.h"
#include "srtc/bit_reader.h"
using namespace srtc;
namespace {
BitReader* g_r; uint64_t g_start, g_n, g_t, g_w; const uint8_t* g_src;
bool insideInv() { return g_r->data == g_src && g_r->dataSize == g_n && g_r->bitPos <= g_n * 8 && g_r->bitPos >= g_start; }
uint32_t streamBit(uint64_t q) { return (g_src[q / 8] >> (7 - q % 8)) & 1u; }
// loop of readBits: value accumulated after i bits
bool bitsSoFar(uint64_t value, uint64_t i)
{
    if (i > g_w || g_r->bitPos != g_start + i || (value >> i) != 0) return false;
    return i <= g_t || ((value >> (i - 1 - g_t)) & 1) == streamBit(g_start + g_t);
}
}
VF_HARNESS(read_bit)
{
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    BitReader r(src, n);
    r.bitPos = vf_range(0, n * 8, "pos");
    const uint64_t p = r.bitPos;
    const uint32_t b = r.readBit();
    if (p < n * 8) { vf_assert(b == ((src[p / 8] >> (7 - p % 8)) & 1u) && r.bitPos == p + 1, "next bit, most significant first"); vf_cover("in"); }
    else { vf_assert(b == 0 && r.bitPos == p, "zero past the end, without reading"); vf_cover("past"); }
}
VF_HARNESS(read_bits)
{
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    BitReader r(src, n);
    r.bitPos = vf_range(0, n * 8, "pos");
    const uint64_t p = r.bitPos;
    const uint64_t w = vf_range(0, 32, "w"), t = vf_range(0, 31, "t"); // t: any bit of the field
    vf_assume(p + w <= n * 8);
    g_r = &r; g_start = p; g_n = n; g_src = src; g_t = t; g_w = w;
    vf_unroll("readBits", -1);
    vf_inv0(insideInv);
    vf_inv2(bitsSoFar);
    const uint32_t v = r.readBits(w);
    vf_assert(r.bitPos == p + w, "consumes w bits");
    if (t < w) vf_assert(((v >> (w - 1 - t)) & 1) == streamBit(p + t), "bits in order, most significant first");
    if (w < 32) vf_assert(v >> w == 0, "no stray bits");
    vf_cover("end");
}
VF_HARNESS(exp_golomb_total)
{
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    BitReader r(src, n);
    r.bitPos = vf_range(0, n * 8, "pos");
    g_r = &r; g_start = r.bitPos; g_n = n; g_src = src;
    vf_unroll("readUnsignedExpGolomb", -1);
    vf_unroll("readBits", -1);
    vf_inv0(insideInv);
    (void)r.readUnsignedExpGolomb();
    vf_assert(insideInv(), "any bit string: stays inside, terminates");
    vf_cover("end");
}
VF_HARNESS(exp_golomb_value)
{
    // ue(v) of ITU-T H.264 9.1: z zeros, a one, z bits x: value 2^z - 1 + x
    const uint64_t z = vf_case(vf_range(0, 31, "z"), 0, 31);
    const uint32_t x = vf_u32("x");
    vf_assume(x < (1u << z));
    const unsigned total = 2 * z + 1;
    uint8_t buf[12] = {};
    const uint64_t code = (1ull << z) | x; // written in z + 1 bits after z zeros
    for (unsigned i = 0; i <= z; i++) { const unsigned q = z + i; buf[q / 8] |= ((code >> (z - i)) & 1) << (7 - q % 8); }
    vf_unroll("*", 80);
    BitReader r(buf, sizeof buf);
    vf_assert(r.readUnsignedExpGolomb() == (1u << z) - 1 + x, "value");
    vf_assert(r.bitPos == total, "consumes exactly the code");
    vf_cover("end");
}
namespace {
// contract of readBits (read_bits above)
uint32_t bits(BitReader* r, uint64_t n)
{
    const uint32_t v = vf_any_u32();
    if (n < 32) vf_assume((v >> n) == 0);
    const uint64_t left = r->dataSize * 8 - r->bitPos;
    r->bitPos += n < left ? n : left;
    return v;
}
}
VF_HARNESS(exp_golomb_zero)
{
    // ue(v) is 0 exactly for the one-bit code "1"; what callers use to recognise the first slice of a picture
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    BitReader r(src, n);
    r.bitPos = vf_range(0, n * 8, "pos");
    const uint64_t p = r.bitPos;
    g_r = &r; g_start = r.bitPos; g_n = n; g_src = src;
    vf_unroll("readUnsignedExpGolomb", 40);
    vf_stub("srtc::BitReader::readBits(unsigned long)", (void*)&bits);
    const uint32_t v = r.readUnsignedExpGolomb();
    vf_assert((v == 0) == (p < n * 8 && streamBit(p)), "zero exactly for the one-bit code");
    vf_cover("end");
}
