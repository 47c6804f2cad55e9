// PROPERTY: C17
// TUS: src/byte_buffer.cpp
#include "srtc/codec_h265.h"
// OPT: nalu_next cost=30
// OPT: nalu_find cost=15
#define NS h265
#define NALTYPE(b) (((b) >> 1) & 63)
#include "src/codec_h265.cpp" // verified as part of this unit, for its local functions
#include "nalu_impl.h"
VF_HARNESS(h265_types)
{
    const uint64_t n = vf_range(0, 0xffffffffu, "n");
    auto d = (const uint8_t*)vf_bytes(n, "unit");
    const uint8_t t = vf_u8("t");
    vf_assert(h265::isParameterNalu(t) == (t >= 32 && t <= 34), "VPS, SPS, PPS");
    vf_assert(h265::isKeyFrameNalu(t) == (t >= 19 && t <= 21), "IDR, CRA slices");
    vf_assert(h265::isSliceNalu(t) == (t <= 21), "slices");
    vf_assert(h265::isFrameStart(d, n) == (n >= 3 && ((d[0] >> 1) & 63) <= 21 && (d[2] & 0x80)), "first_slice_segment_in_pic_flag");
    vf_assert(h265::isSliceFrameStart(d, n) == (n > 0 && (d[0] & 0x80)), "first_slice_segment_in_pic_flag");
    vf_cover("end");
}
