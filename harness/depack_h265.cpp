// PROPERTY: C19
// TUS: src/depacketizer_h265.cpp src/depacketizer_video.cpp src/depacketizer.cpp src/codec_h265.cpp src/bit_reader.cpp src/byte_buffer.cpp src/track.cpp src/rtp_extension.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp
// OPT: fragments3 tier=thorough
// OPT: fragments3 time=600
// ASSUME: RandomGenerator::next returns a value of its interval
#define DP DepacketizerH265
#include "srtc/depacketizer_h265.h"
#include "srtc/codec_h265.h"
#include "srtc/bit_reader.h"
#include "srtc/track.h"
#define CODEC Codec::H265
#define HDR 2
#define MINU 2
#define AGG 48
#define FU 49
#define EDGE 99
#define FUTYPE 63
#define HAVEALL 0x17
#define TYPE(d) (((d)[0] >> 1) & 63)
#define SINGLE(t) ((t) <= 40)
#define FUHDR(h, d, fh) ((h)[0] = (uint8_t)((((fh) & 63) << 1) | ((d)[0] & 1)), (h)[1] = (d)[1])
#define HAVEBIT(t) ((t) == 32 ? 1 : (t) == 33 ? 2 : (t) == 34 ? 4 : (t) >= 19 && (t) <= 21 ? 0x10 : 0)
#define ISSLICE(t) ((t) <= 21)
#define STARTS(t, p, n) ((t) == 32 || (ISSLICE(t) && !((t) >= 19 && (t) <= 21) && (n) > 0 && ((p)[0] & 0x80)))
#include "stub_random.h"
#include "depack_nalu.h"
