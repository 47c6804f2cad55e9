// PROPERTY: C19
// TUS: src/depacketizer_h264.cpp src/depacketizer_video.cpp src/depacketizer.cpp src/codec_h264.cpp src/bit_reader.cpp src/byte_buffer.cpp src/track.cpp src/rtp_extension.cpp src/media.cpp src/rtp_packet_source.cpp src/rtcp_packet_source.cpp src/rtp_time_source.cpp src/track_stats.cpp src/simulcast_layer.cpp src/extended_value.cpp
// OPT: fragments3 tier=thorough
// OPT: fragments3 time=600
// ASSUME: RandomGenerator::next returns a value of its interval
#define DP DepacketizerH264
#include "srtc/depacketizer_h264.h"
#include "srtc/codec_h264.h"
#include "srtc/bit_reader.h"
#include "srtc/track.h"
#define CODEC Codec::H264
#define HDR 1
#define MINU 1
#define AGG 24
#define FU 28
#define EDGE 23
#define FUTYPE 31
#define HAVEALL 0x13
#define TYPE(d) ((d)[0] & 31)
#define SINGLE(t) ((t) < 23)
#define FUHDR(h, d, fh) ((h)[0] = ((d)[0] & 0x60) | ((fh) & 31))
#define HAVEBIT(t) ((t) == 7 ? 1 : (t) == 8 ? 2 : (t) == 5 ? 0x10 : 0)
#define ISSLICE(t) ((t) == 1)
#define STARTS(t, p, n) ((t) == 7 || ((t) == 1 && (n) > 0 && ((p)[0] & 0x80)))
#include "stub_random.h"
#include "depack_nalu.h"
