// PROPERTY: C17
// TUS: src/bit_reader.cpp src/byte_buffer.cpp
#include "srtc/codec_h264.h"
#include "srtc/bit_reader.h"
// OPT: nalu_next cost=30
// OPT: nalu_find cost=15
#define NS h264
#define NALTYPE(b) ((b) & 31)
#include "src/codec_h264.cpp" // verified as part of this unit, for its local functions
#include "nalu_impl.h"
namespace {
// contract of readUnsignedExpGolomb (exp_golomb_zero in bitreader.cpp)
uint32_t golomb(BitReader* r)
{
    const bool one = r->bitPos < r->dataSize * 8 && ((r->data[r->bitPos >> 3] >> (7 - (r->bitPos & 7))) & 1);
    const uint32_t v = vf_any_u32();
    vf_assume((v == 0) == one);
    return v;
}
}
VF_HARNESS(h264_types)
{
    vf_stub("srtc::BitReader::readUnsignedExpGolomb()", (void*)&golomb);
    const uint64_t n = vf_range(0, 0xffffffffu, "n");
    auto d = (const uint8_t*)vf_bytes(n, "unit");
    const uint8_t t = vf_u8("t");
    vf_assert(h264::isParameterNalu(t) == (t == 7 || t == 8), "SPS, PPS");
    vf_assert(h264::isKeyFrameNalu(t) == (t == 5), "IDR slice");
    vf_assert(h264::isSliceNalu(t) == (t == 5 || t == 1), "slices");
    vf_assert(h264::isFrameStart(d, n) == (n > 1 && ((d[0] & 31) == 1 || (d[0] & 31) == 5) && (d[1] & 0x80)), "first slice: first_mb_in_slice is ue(0)");
    vf_assert(h264::isSliceFrameStart(d, n) == (n > 0 && (d[0] & 0x80)), "first slice");
    vf_cover("end");
}
