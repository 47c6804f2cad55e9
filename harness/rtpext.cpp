// PROPERTY: C08
// TUS: src/rtp_extension.cpp src/rtp_extension_builder.cpp src/byte_buffer.cpp
// RTP header extensions against RFC 8285 written out on the bytes.
#include "vf.h"
#include "bytebuf_model.h"
#include "srtc/rtp_extension.h"
#include "srtc/rtp_extension_builder.h"
#include <string>
#include <cstring>
using namespace srtc;
namespace {
struct Found { bool ok; uint64_t pos, len; };
// RFC 8285 4.2 / 4.3: first element with the id
Found spec(uint16_t kind, const uint8_t* d, uint64_t n, uint8_t id, unsigned maxElems)
{
    uint64_t i = 0;
    for (unsigned e = 0; e < maxElems; e++) {
        if (i >= n) break;
        if (d[i] == 0) { i++; continue; }
        if (kind == 0xBEDE) {
            const uint8_t eid = d[i] >> 4;
            const uint64_t len = (d[i] & 15) + 1;
            if (eid == 15 || eid == 0 || i + 1 + len > n) break;
            if (eid == id) return { true, i + 1, len };
            i += 1 + len;
        } else {
            if (i + 1 >= n) break;
            const uint64_t len = d[i + 1];
            if (i + 2 + len > n) break;
            if (d[i] == id) return { true, i + 2, len };
            i += 2 + len;
        }
    }
    return { false, 0, 0 };
}
uint16_t anyKind() { return vf_fork(vf_bool("one byte form")) ? 0xBEDE : (uint16_t)(0x1000 | (vf_u8("appbits") & 15)); }
void exact(uint16_t kind, unsigned bytes)
{
    const uint64_t n = vf_case(vf_range(0, bytes, "n"), 0, bytes);
    auto d = (const uint8_t*)vf_bytes(n, "data");
    const uint8_t id = vf_u8("id");
    RtpExtension x(kind, ByteBuffer(d, n));
    const auto v = x.findAny(id);
    const auto f = spec(kind, d, n, id, bytes);
    vf_assert(v.has_value() == f.ok, "found exactly when the element is there");
    if (f.ok) { vf_assert(v->ptr == x.getData().data() + f.pos && v->size == f.len, "the first element with the id"); vf_cover("found"); }
    const auto a = x.findU16(id);
    vf_assert(a.has_value() == (f.ok && f.len >= 2), "16-bit value");
    if (a) vf_assert(*a == (d[f.pos] << 8 | d[f.pos + 1]), "16-bit value bytes");
    x.trimPadding();
    vf_assert(x.getData().size() <= n, "trimming drops a suffix");
    if (f.ok) vf_assert(f.pos + f.len <= x.getData().size(), "trimming keeps every element");
    vf_bounded("element walk: extensions up to the stated number of bytes");
}
}
namespace {
// contract of nextElement (proved by ext_next): the caller's reader moves forward to the end of an element that lies
// inside the data, or there is none
uint64_t g_at, g_len; uint8_t g_id; // the element last handed out
bool next_contract(const RtpExtension* self, ByteReader& r, RtpExtension::Element& out)
{
    const uint64_t at = vf_any_u32(), len = vf_any_u8();
    if (vf_any_bool()) { vf_assume(at >= r.mPos && at <= r.mLen); r.mPos = at; return false; }
    vf_assume(RtpExtension::isValidExtensionId(self->mId));
    vf_assume(len <= 255 && at >= r.mPos && at <= r.mLen);
    const bool one = self->mId == 0xBEDE;
    const uint64_t hdr = one ? 1 : 2;
    vf_assume(at - r.mPos >= hdr && len <= r.mLen - at);
    out.id = vf_any_u8(); out.len = len; out.ptr = r.mBuf + at;
    vf_assume(out.id != 0 && (!one || out.id < 15));
    g_at = at; g_len = len; g_id = out.id; // header bytes: as asserted by ext_next
    r.mPos = at + len;
    return true;
}
}
namespace {
// proof hint for ext_next: while padding is skipped, the last byte read is the one before the reader
const ByteReader* g_r; uint64_t g_pos;
bool last_read(uint64_t v) { return v == 0 || (g_r->mPos > g_pos && g_r->mPos <= g_r->mLen && g_r->mBuf[g_r->mPos - 1] == v); }
}
VF_HARNESS(ext_next)
{
    vfc_bytebuf();
    vf_inv1(last_read);
    const uint64_t n = vf_range(0, 262140, "n"), pos = vf_range(0, 262140, "pos");
    vf_assume(pos <= n);
    auto d = (const uint8_t*)vf_bytes(n, "data");
    const uint16_t kind = vf_u16("kind");
    RtpExtension x(kind, ByteBuffer(d, n));
    ByteReader r(x.getData());
    r.mPos = pos;
    g_r = &r; g_pos = pos;
    RtpExtension::Element e = {};
    const uint8_t* base = x.getData().data();
    const bool more = x.nextElement(r, e);
    vf_assert(r.mPos >= pos && r.mPos <= n && r.mBuf == base && r.mLen == n, "the reader stays inside the data and never moves back");
    if (!more) { vf_cover("end"); return; }
    vf_assert(RtpExtension::isValidExtensionId(kind), "only known forms have elements");
    const bool one = kind == 0xBEDE;
    vf_assert(vf_sameobj(e.ptr, base) && e.ptr >= base, "value pointer");
    const uint64_t at = (uint64_t)(e.ptr - base);
    vf_assert(at <= n && e.len <= 255 && e.len <= n - at && at >= pos && at - pos >= (one ? 1u : 2u), "value is inside the extension, behind its header");
    vf_assert(r.mPos == at + e.len, "the reader is behind the value");
    vf_assert(e.id != 0, "padding is never an element");
    if (one) { vf_assert(e.id < 15 && base[at - 1] == (uint8_t)(e.id << 4 | (e.len - 1)), "one-byte element header"); vf_cover("one"); }
    else { vf_assert(base[at - 2] == e.id && base[at - 1] == e.len, "two-byte element header"); vf_cover("two"); }
}
#define NEXT vf_unroll("trimPadding", -1); vf_unroll("findAny", -1); vf_stub("srtc::RtpExtension::nextElement(srtc::ByteReader&, srtc::RtpExtension::Element&) const", (void*)&next_contract)
VF_HARNESS(ext_find_safe)
{
    // any received extension of any size: memory safe, terminating, and what is found is an element with that id inside the data
    vfc_bytebuf();
    NEXT;
    const uint64_t n = vf_range(0, 262140, "n");
    auto d = (const uint8_t*)vf_bytes(n, "data");
    const uint16_t kind = vf_u16("kind");
    const uint8_t id = vf_u8("id");
    RtpExtension x(kind, ByteBuffer(d, n));
    const auto v = x.findAny(id);
    if (v) {
        const uint8_t* base = x.getData().data();
        vf_assert(kind == 0xBEDE || (kind & 0xfff0) == 0x1000, "only known forms have elements");
        vf_assert(v->ptr == base + g_at && v->size == g_len && g_id == id, "the value is that of an element with the id");
        vf_assert(g_at <= n && g_len <= n - g_at, "value is inside the extension");
        vf_cover("found");
    }
}
namespace {
// contract of findAny (proved by ext_find_safe)
std::optional<RtpExtension::Value> find_contract(const RtpExtension* self, uint8_t)
{
    if (vf_any_bool() || self->empty()) return {};
    const uint64_t at = vf_any_u32(), len = vf_any_u8();
    vf_assume(at <= self->mData.size() && len <= 255 && len <= self->mData.size() - at);
    return RtpExtension::Value{ self->mData.data() + at, len };
}
}
VF_HARNESS(ext_typed_safe)
{
    vfc_bytebuf();
    vf_stub("srtc::RtpExtension::findAny(unsigned char) const", (void*)&find_contract);
    const uint64_t n = vf_range(0, 262140, "n");
    auto d = (const uint8_t*)vf_bytes(n, "data");
    RtpExtension x(vf_u16("kind"), ByteBuffer(d, n));
    const uint8_t id = vf_u8("id");
    const auto a = x.findU16(id);
    const auto b = x.findU32(id);
    const auto c = x.findU64(id);
    if (a) vf_cover("u16"); if (b) vf_cover("u32"); if (c) vf_cover("u64");
}
VF_HARNESS(ext_trim_safe)
{
    vfc_bytebuf();
    NEXT;
    const uint64_t n = vf_range(0, 262140, "n"), k = vf_range(0, 262140, "k");
    auto d = (const uint8_t*)vf_bytes(n, "data");
    RtpExtension x(vf_u16("kind"), ByteBuffer(d, n));
    const auto kind = x.getId();
    x.trimPadding();
    vf_assert(x.getData().size() <= n && x.getId() == kind, "trimming drops a suffix and keeps the form");
    if (k < x.getData().size()) { vf_assert(x.getData().data()[k] == d[k], "kept bytes are unchanged"); vf_cover("kept"); }
}
VF_HARNESS(ext_exact_one) { vfc_bytebuf(); vf_unroll("findAny", 8); vf_unroll("nextElement", 8); vf_unroll("trimPadding", 8); vf_unroll("spec", 12); exact(0xBEDE, 6); }
VF_HARNESS(ext_exact_two) { vfc_bytebuf(); vf_unroll("findAny", 8); vf_unroll("nextElement", 8); vf_unroll("trimPadding", 8); vf_unroll("spec", 12); exact((uint16_t)(0x1000 | (vf_u8("appbits") & 15)), 7); }
namespace {
struct El { uint8_t id; uint64_t len; uint64_t at; };
// writer calls with arbitrary content; returns where the value went
El add(RtpExtensionBuilder& b, int kind, uint64_t at)
{
    El e; e.id = vf_u8("id"); e.at = at + 2;
    vf_assume(e.id != 0);
    if (kind == 0) { b.addU16Value(e.id, 0x1122); e.len = 2; }
    else if (kind == 1) { b.addU32Value(e.id, 0x11223344); e.len = 4; }
    else if (kind == 2) { b.addU64Value(e.id, 0x1122334455667788); e.len = 8; }
    else {
        const uint64_t n = vf_range(0, 400, "len");
        auto v = (const uint8_t*)vf_bytes(n, "value");
        e.len = n < 255 ? n : 255;
        if (kind == 3) { ByteBuffer bb(v, n); b.addBinaryValue(e.id, bb); }
        else { std::string s((const char*)v, n); b.addStringValue(e.id, s); }
    }
    return e;
}
void build(int k0, int k1)
{
    RtpExtensionBuilder b;
    const El e0 = add(b, k0, 0);
    const El e1 = add(b, k1, 2 + e0.len);
    const uint8_t other = vf_u8("other");
    vf_assert(b.contains(e0.id), "contains the first");
    auto x = b.build();
    vf_assert(x.getId() == RtpExtension::kTwoByte && x.getData().size() == 4 + e0.len + e1.len, "two-byte form");
    const uint8_t* base = x.getData().data();
    const auto f0 = x.findAny(e0.id), f1 = x.findAny(e1.id), fo = x.findAny(other);
    vf_assert(f0 && f0->ptr == base + 2 && f0->size == e0.len, "first value is found");
    if (e1.id != e0.id) { vf_assert(f1 && f1->ptr == base + e1.at && f1->size == e1.len, "second value is found"); vf_cover("second"); }
    if (other != e0.id && other != e1.id) vf_assert(!fo, "other ids are not found");
    vf_assert(x.size() == 4 + (4 + e0.len + e1.len + 3) / 4 * 4, "padded size");
    // a copy used to add one more value
    if (e1.id == other) vf_assume(e1.len == 2); // precondition of addOrReplaceU16Value: an existing element with that id holds 16 bits
    if (e0.id == other) vf_assume(e0.len == 2);
    auto c = RtpExtensionBuilder::from(x);
    c.addOrReplaceU16Value(other, 0xabcd);
    auto y = c.build();
    const auto u = y.findU16(other);
    if (other != 0) { vf_assert(u && *u == 0xabcd, "added or replaced value is found"); vf_cover("added"); }
    if (other != 0 && other != e0.id) { const auto g = y.findAny(e0.id); vf_assert(g && g->size == e0.len && g->ptr == y.getData().data() + 2, "the others stay"); }
}
}
#define CFG vfc_bytebuf(); vf_unroll("findAny", 5); vf_unroll("nextElement", 3); vf_unroll("contains", 5); vf_unroll("addOrReplace", 5)
VF_HARNESS(ext_build_ints) { CFG; build(0, 1); }
VF_HARNESS(ext_build_u64_bin) { CFG; build(2, 3); }
VF_HARNESS(ext_build_bin_u16) { CFG; build(3, 0); }
VF_HARNESS(ext_build_str_str) { CFG; build(4, 4); }
VF_HARNESS(ext_append_values)
{
    // any builder content: a value is appended behind what is there, which stays as it was
    vfc_bytebuf();
    const uint64_t n = vf_range(0, 60000, "n"), m = vf_range(0, 255, "m"), k = vf_range(0, 70000, "k");
    auto d = (const uint8_t*)vf_bytes(n, "data");
    auto v = (const uint8_t*)vf_bytes(m, "value");
    RtpExtension x(0x1000, ByteBuffer(d, n));
    auto b = RtpExtensionBuilder::from(x);
    const uint8_t id = vf_u8("id");
    ByteBuffer bb(v, m);
    b.addBinaryValue(id, bb);
    auto y = b.build();
    vf_assert(y.getData().size() == n + 2 + m, "size");
    const uint8_t* o = y.getData().data();
    if (k < n) vf_assert(o[k] == d[k], "earlier elements stay");
    vf_assert(o[n] == id && o[n + 1] == m, "element header");
    if (k < m) { vf_assert(o[n + 2 + k] == v[k], "element value"); vf_cover("value"); }
}
