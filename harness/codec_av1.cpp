// PROPERTY: C17
// TUS: src/codec_av1.cpp src/codec_vp9.cpp src/bit_reader.cpp src/byte_buffer.cpp
// OBU splitting against AV1 5.3 and the VP9 payload descriptor against RFC 9628, written out on the bytes.
#include "vf.h"
#include "bytebuf_model.h"
#include "srtc/codec_av1.h"
#include "srtc/codec_vp9.h"
#include "srtc/bit_reader.h"
#include <new>
using namespace srtc;
namespace {
struct U { bool ok; uint64_t at, size; uint8_t type, tid, sid; };
// the unit that starts at p
U unit(const uint8_t* d, uint64_t p, uint64_t n)
{
    U u = { false, 0, 0, 0, 0, 0 };
    if (p >= n) return u;
    const uint8_t h = d[p++];
    if (h & 0x80) return u;
    u.type = h >> 3;
    if (h & 4) { if (p >= n) return u; u.tid = d[p] >> 5; u.sid = (d[p] >> 3) & 3; p++; }
    uint64_t size = n - p;
    if (h & 2) {
        // leb128: at most 8 bytes
        size = 0;
        for (int i = 0; i < 8; i++) {
            if (p >= n) break;
            const uint8_t b = d[p++];
            size |= (uint64_t)(b & 127) << (7 * i);
            if (!(b & 128)) break;
        }
        if (size > n - p) return u;
    }
    u.ok = true; u.at = p; u.size = size;
    return u;
}
void check(const av1::ObuParser& p, const uint8_t* d, uint64_t n, uint64_t from)
{
    const U u = unit(d, from, n);
    if (!u.ok) { vf_assert(!p && p.isAtEnd() && p.currSize() == 0, "nothing is returned for incomplete or malformed units"); vf_cover("malformed"); return; }
    vf_assert(p.currData() == d + u.at && p.currSize() == u.size && p.currSize() <= n - u.at, "the unit's payload, inside the frame");
    vf_assert(p.currType() == u.type && p.currTemporalId() == u.tid && p.currSpatialId() == u.sid, "type and layer");
    vf_assert(bool(p) == (u.at < n) && p.isAtEnd() == (u.at + u.size >= n), "position queries");
    vf_cover("unit");
}
}
VF_HARNESS(obu_first)
{
    vfc_bytebuf();
    vf_unroll("*", 20);
    const uint64_t n = vf_range(0, 0xffffffffu, "n");
    auto d = (uint8_t*)vf_bytes(n, "frame");
    ByteBuffer b; b.mBuf = d; b.mLen = b.mCap = n;
    av1::ObuParser p(b);
    check(p, d, n, 0);
    b.mBuf = nullptr; b.mLen = b.mCap = 0;
}
VF_HARNESS(obu_next)
{
    vfc_bytebuf();
    vf_unroll("*", 20);
    const uint64_t n = vf_range(0, 0xffffffffu, "n"), at = vf_range(0, 0xffffffffu, "at"), size = vf_range(0, 0xffffffffu, "size");
    auto d = (uint8_t*)vf_bytes(n, "frame");
    vf_assume(at < n && size <= n - at); // a current unit
    av1::ObuParser p{ ByteBuffer() };
    const_cast<const uint8_t*&>((const uint8_t* const&)p.mData) = d; const_cast<const uint8_t*&>((const uint8_t* const&)p.mEnd) = d + n;
    p.mCurrData = d + at; p.mCurrSize = size;
    p.next();
    check(p, d, n, at + size);
    if (p) vf_assert(p.currData() > d + at, "moves forward");
    else { p.next(); vf_assert(!p, "stays at the end"); }
}
VF_HARNESS(obu_types)
{
    const uint64_t n = vf_range(0, 0xffffffffu, "n");
    auto d = (const uint8_t*)vf_bytes(n, "unit");
    const uint8_t t = vf_u8("t");
    vf_assert(av1::isFrameObuType(t) == (t == 3 || t == 6 || t == 7), "frame units");
    const bool key = (t == 3 || t == 6 || t == 7) && n > 1 && !(d[0] & 0x80) && ((d[0] >> 5) & 3) % 2 == 0;
    vf_assert(av1::isKeyFrameObu(t, d, n) == key, "key or intra-only frame that is not a repeat");
    vf_cover("end");
}
VF_HARNESS(vp9_descriptor)
{
    // RFC 9628 4.2
    vf_unroll("vfh_vp9_descriptor", 5);
    const uint64_t n = vf_range(0, 65535, "n");
    auto d = (const uint8_t*)vf_bytes(n, "payload");
    vp9::PayloadDescriptor desc;
    const uint8_t* out = nullptr; size_t outn = 12345;
    const bool ok = vp9::parsePayloadDescriptor(d, n, desc, out, outn);
    if (n == 0) { vf_assert(!ok, "empty"); return; }
    const uint8_t b = d[0];
    if (!ok) { vf_cover("rejected"); vf_assert(b & 0xf2, "a one-byte descriptor is complete"); return; }
    vf_assert(outn <= n && out == d + (n - outn), "the payload is a suffix");
    const uint64_t len = n - outn;
    vf_assert(desc.picture_id_present == !!(b & 0x80) && desc.inter_picture == !!(b & 0x40) && desc.start_of_frame == !!(b & 8) && desc.end_of_frame == !!(b & 4), "flags");
    uint64_t p = 1;
    uint16_t id = 0;
    if (b & 0x80) { if (d[1] & 0x80) { id = (d[1] & 127) << 8 | d[2]; p = 3; } else { id = d[1]; p = 2; } }
    vf_assert(desc.picture_id == id, "picture id");
    if (b & 0x20) { const bool more = !(b & 0x10) && !(d[p] & 1); p += more ? 2 : 1; }
    if ((b & 0x50) == 0x50) for (int i = 0; i < 3; i++) if (!(d[p++] & 1)) break;
    if (!(b & 2)) { vf_assert(len == p, "descriptor length"); vf_cover("plain"); }
    else {
        const uint8_t ss = d[p++];
        if (ss & 0x10) p += 4 * ((ss >> 5) + 1);
        if (!(ss & 8)) { vf_assert(len == p, "descriptor length with scalability structure"); vf_cover("structure"); }
        else { vf_assert(len >= p + 1, "descriptor length with picture group (at least)"); vf_cover("group"); }
    }
}
VF_HARNESS(vp9_build)
{
    const uint64_t n = vf_range(0, 100, "n");
    auto d = (uint8_t*)vf_bytes(n, "buf");
    const bool s = vf_bool("start"), e = vf_bool("end"), inter = vf_bool("inter");
    const uint16_t id = vf_u16("id");
    const size_t w = vp9::buildPayloadDescriptor(d, n, s, e, inter, id);
    vf_assert(w == (n < 3 ? 0 : 3), "three bytes, or nothing");
    if (w == 0) return;
    vp9::PayloadDescriptor desc; const uint8_t* out; size_t outn;
    vf_assert(vp9::parsePayloadDescriptor(d, n, desc, out, outn) && out == d + 3 && outn == n - 3, "parses back");
    vf_assert(desc.picture_id_present && desc.inter_picture == inter && desc.start_of_frame == s && desc.end_of_frame == e && desc.picture_id == (id & 0x7fff), "fields");
    vf_cover("end");
}
VF_HARNESS(vp9_frame_header)
{
    vf_unroll("*", 40);
    const uint64_t n = vf_range(0, 0xffffffffu, "n");
    auto d = (const uint8_t*)vf_bytes(n, "frame");
    const bool key = vp9::isKeyFrame(d, n);
    if (n > 0) {
        const uint8_t b = d[0];
        const uint8_t prof = ((b >> 5) & 1) | ((b >> 3) & 2);
        const bool want = prof != 3 ? (b & 0xcc) == 0x80 : (b & 0xc6) == 0x80; // marker 2, no repeat, frame type 0
        vf_assert(key == want, "key frame: marker 2, not a repeat, frame type 0");
        vf_cover("some");
    } else vf_assert(!key, "empty");
    uint16_t w = 1, h = 1;
    if (vp9::extractDimensions(d, n, w, h)) { vf_assert(key, "only key frames have dimensions"); vf_cover("dims"); }
}
