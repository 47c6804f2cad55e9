// PROPERTY: C15
// TUS: src/byte_buffer.cpp
// ByteBuffer / ByteWriter / ByteReader: value semantics of the byte container and big-endian / LEB128 codecs.
#include "vf.h"
#include "srtc/byte_buffer.h"
#include <new>
#include <cstring>
using namespace srtc;
namespace {
// arbitrary buffer: len <= cap bytes of arbitrary content, or empty
ByteBuffer* arbitrary(void* mem, const char* name)
{
    auto b = new (mem) ByteBuffer();
    const uint64_t cap = vf_range(0, 1ull << 32, "cap");
    if (cap > 0) b->mBuf = (uint8_t*)vf_bytes(cap, name);
    b->mCap = cap;
    b->mLen = vf_range(0, cap, "len");
    return b;
}
bool valid(const ByteBuffer& b)
{
    if (b.mLen > b.mCap) return false;
    if (b.mCap == 0) return true;
    return b.mBuf != nullptr && (!vf_mode() || (vf_objsize(b.mBuf) == b.mCap && vf_offset(b.mBuf) == 0));
}
alignas(ByteBuffer) char m0[sizeof(ByteBuffer)], m1[sizeof(ByteBuffer)];
#define OLDBYTE(b, k) ((k) < (b)->size() ? (b)->data()[k] : 0)
}
VF_HARNESS(append_raw)
{
    auto b = arbitrary(m0, "buf");
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    const uint64_t old = b->size(), k = vf_u64("k");
    const uint8_t ok = k < old ? b->data()[k] : 0;
    b->append(src, n);
    vf_assert(valid(*b), "representation");
    vf_assert(b->size() == old + n, "size grows by n");
    if (k < old) vf_assert(b->data()[k] == ok, "existing bytes are kept");
    if (k >= old && k < old + n) { vf_assert(b->data()[k] == src[k - old], "appended bytes are the source bytes"); vf_cover("appended"); }
}
VF_HARNESS(append_buf)
{
    auto b = arbitrary(m0, "buf");
    auto c = arbitrary(m1, "other");
    const uint64_t old = b->size(), n = c->size(), k = vf_u64("k");
    const uint8_t ok = k < old ? b->data()[k] : 0;
    b->append(*c);
    vf_assert(valid(*b) && c->size() == n, "representation");
    vf_assert(b->size() == old + n, "size grows by n");
    if (k < old) vf_assert(b->data()[k] == ok, "existing bytes are kept");
    if (k >= old && k < old + n) { vf_assert(b->data()[k] == c->data()[k - old], "appended bytes are the source bytes"); vf_cover("appended"); }
}
VF_HARNESS(padding_fill)
{
    auto b = arbitrary(m0, "buf");
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    const uint8_t c = vf_u8("c");
    const uint64_t old = b->size(), k = vf_u64("k");
    vf_assume(b->mCap > 0 || n > 0);
    const uint8_t ok = k < old ? b->data()[k] : 0;
    b->padding(c, n);
    vf_assert(valid(*b) && b->size() == old + n, "size grows by n");
    if (k < old) vf_assert(b->data()[k] == ok, "existing bytes are kept");
    if (k >= old && k < old + n) { vf_assert(b->data()[k] == c, "padding bytes"); vf_cover("padded"); }
}
VF_HARNESS(reserve_keeps)
{
    auto b = arbitrary(m0, "buf");
    const uint64_t n = vf_range(0, 1ull << 32, "n"), k = vf_u64("k"), old = b->size();
    const uint8_t ok = k < old ? b->data()[k] : 0;
    b->reserve(n);
    vf_assert(valid(*b) && b->size() == old && b->capacity() >= n, "reserve provides room and keeps the size");
    if (k < old) { vf_assert(b->data()[k] == ok, "existing bytes are kept"); vf_cover("kept"); }
    b->clear();
    vf_assert(b->empty() && b->size() == 0 && valid(*b), "clear empties");
    b->free();
    vf_assert(b->empty() && b->capacity() == 0, "free releases");
}
VF_HARNESS(construct_copy_move)
{
    const uint64_t n = vf_range(0, 1ull << 32, "n"), k = vf_u64("k");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    ByteBuffer a(src, n);
    vf_assert(valid(a) && a.size() == n, "construct: size");
    if (k < n) vf_assert(a.data()[k] == src[k], "construct: bytes");
    ByteBuffer c(a.copy());
    vf_assert(c.size() == n && (n == 0 || c.data() != a.data()), "copy: separate storage");
    if (k < n) vf_assert(c.data()[k] == src[k], "copy: bytes");
    const auto p = a.data();
    ByteBuffer m(std::move(a));
    vf_assert(m.data() == p && m.size() == n && a.size() == 0 && a.data() == nullptr, "move transfers ownership");
    auto e = arbitrary(m0, "e");
    *e = std::move(m);
    vf_assert(e->data() == p && e->size() == n && m.data() == nullptr && m.size() == 0, "move assignment transfers ownership");
    const uint64_t n2 = vf_range(0, 1ull << 32, "n2");
    auto src2 = (const uint8_t*)vf_bytes(n2, "src2");
    e->assign(src2, n2);
    vf_assert(valid(*e) && e->size() == n2, "assign: size");
    if (k < n2) { vf_assert(e->data()[k] == src2[k], "assign: bytes"); vf_cover("assigned"); }
    e->~ByteBuffer();
}
VF_HARNESS(equality)
{
    auto b = arbitrary(m0, "a");
    auto c = arbitrary(m1, "b");
    vf_assume(b->size() <= 16 && b->mCap > 0 && c->mCap > 0);
    vf_bounded("equality: contents up to 16 bytes");
    bool same = b->size() == c->size();
    if (same) for (uint64_t i = 0; i < 16; i++) if (i < b->size() && b->data()[i] != c->data()[i]) { same = false; break; }
    vf_assert((*b == *c) == same, "equal exactly when same size and bytes");
}
VF_HARNESS(write_read_ints)
{
    auto b = arbitrary(m0, "buf");
    const uint64_t old = b->size();
    const uint8_t v8 = vf_u8("v8");
    const uint16_t v16 = vf_u16("v16");
    const uint32_t v24 = vf_u32("v24"), v32 = vf_u32("v32");
    const uint64_t v48 = vf_u64("v48"), v64 = vf_u64("v64");
    ByteWriter w(*b);
    w.writeU8(v8); w.writeU16(v16); w.writeU24(v24); w.writeU32(v32); w.writeU48(v48); w.writeU64(v64);
    vf_assert(valid(*b) && b->size() == old + 24, "sizes");
    const uint8_t* p = b->data() + old;
    vf_assert(p[0] == v8, "u8");
    vf_assert(p[1] == (uint8_t)(v16 >> 8) && p[2] == (uint8_t)v16, "u16 is big endian");
    vf_assert(p[3] == (uint8_t)(v24 >> 16) && p[4] == (uint8_t)(v24 >> 8) && p[5] == (uint8_t)v24, "u24 is big endian");
    for (int i = 0; i < 4; i++) vf_assert(p[6 + i] == (uint8_t)(v32 >> (24 - 8 * i)), "u32 is big endian");
    for (int i = 0; i < 6; i++) vf_assert(p[10 + i] == (uint8_t)(v48 >> (40 - 8 * i)), "u48 is big endian");
    for (int i = 0; i < 8; i++) vf_assert(p[16 + i] == (uint8_t)(v64 >> (56 - 8 * i)), "u64 is big endian");
    ByteReader r(p, 24);
    vf_assert(r.readU8() == v8, "read u8");
    vf_assert(r.readU16() == v16, "read u16");
    r.skip(3);
    vf_assert(r.readU32() == v32, "read u32");
    r.skip(6);
    vf_assert(r.readU64() == v64, "read u64");
    vf_assert(r.remaining() == 0 && r.position() == 24 && r.size() == 24, "position");
    vf_cover("end");
}
VF_HARNESS(reader_any)
{
    // any read that fits stays inside the buffer, returns its bytes, and advances exactly
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    ByteReader r(src, n);
    r.mPos = vf_range(0, n, "pos");
    const uint64_t pos = r.position();
    vf_assert(r.remaining() == n - pos, "remaining");
    vf_assert(r.current() == src + pos, "current");
    const uint64_t want = vf_range(0, 1ull << 33, "want");
    vf_assume(want <= r.remaining());
    const uint64_t k = vf_u64("k");
    switch (vf_case(vf_range(0, 6, "op"), 0, 6)) {
    case 0: vf_assume(want == 1); vf_assert(r.readU8() == src[pos], "u8"); break;
    case 1: vf_assume(want == 2); vf_assert(r.readU16() == (src[pos] << 8 | src[pos + 1]), "u16"); break;
    case 2: vf_assume(want == 4); vf_assert(r.readU32() == ((uint32_t)src[pos] << 24 | src[pos + 1] << 16 | src[pos + 2] << 8 | src[pos + 3]), "u32"); break;
    case 3: {
        vf_assume(want == 8);
        uint64_t v = 0;
        for (int i = 0; i < 8; i++) v = v << 8 | src[pos + i];
        vf_assert(r.readU64() == v, "u64");
        break;
    }
    case 4: {
        auto b = r.readByteBuffer(want);
        vf_assert(b.size() == want, "buffer size");
        if (k < want) vf_assert(b.data()[k] == src[pos + k], "buffer bytes");
        vf_cover("buffer");
        break;
    }
    case 5: {
        auto d = (uint8_t*)vf_any_bytes(want);
        r.read(d, want);
        if (k < want) vf_assert(d[k] == src[pos + k], "copied bytes");
        break;
    }
    default: r.skip(want); break;
    }
    vf_assert(r.position() == pos + want && r.remaining() == n - pos - want, "advances by the size read");
    vf_cover("end");
}
VF_HARNESS(read_string)
{
    const uint64_t n = vf_range(0, 1ull << 20, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    ByteReader r(src, n);
    const uint64_t want = vf_range(0, 1ull << 20, "want"), k = vf_u64("k");
    vf_assume(want <= n);
    auto s = r.readString(want);
    vf_assert(s.size() == want && r.position() == want, "string size");
    if (k < want) vf_assert((uint8_t)s.data()[k] == src[k], "string bytes");
    vf_cover("end");
}
VF_HARNESS(leb128)
{
    const uint32_t v = vf_u32("v");
    ByteBuffer b;
    ByteWriter w(b);
    w.writeLEB128(v);
    vf_assert(b.size() >= 1 && b.size() <= 5, "one to five bytes");
    vf_assert(b.size() == (v < 0x80 ? 1 : v < 0x4000 ? 2 : v < 0x200000 ? 3 : v < 0x10000000 ? 4 : 5), "shortest form");
    ByteReader r(b);
    vf_assert(r.readLEB128() == v, "round trip");
    vf_assert(r.remaining() == 0, "consumes exactly its bytes");
    vf_cover("end");
}
VF_HARNESS(leb128_any)
{
    const uint64_t n = vf_range(0, 1ull << 32, "n");
    auto src = (const uint8_t*)vf_bytes(n, "src");
    ByteReader r(src, n);
    r.mPos = vf_range(0, n, "pos");
    const uint64_t pos = r.position();
    const uint32_t v = r.readLEB128();
    vf_assert(r.position() <= n && r.position() >= pos && r.position() - pos <= 5, "stays inside");
    vf_assert(pos == n || r.position() > pos, "makes progress");
    uint32_t e = 0;
    for (uint64_t i = 0; i < 5; i++) if (pos + i < r.position()) e |= (uint32_t)(src[pos + i] & 0x7f) << (7 * i);
    vf_assert(v == e, "value of the groups consumed");
    vf_cover("end");
}
