// PROPERTY: C11
// TUS: src/stun/stunmessage.cpp src/stun/utils.cpp
// ASSUME: datagrams are at most 65535 bytes (UDP)
// STUN messages: received ones are never read outside their declared length (which has to fit the datagram), built ones
// never written outside the buffer.
#include "vf.h"
#include "stub_net.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <cstring>
#include "stunmessage.h"
#include "utils.h"
using namespace stun;
namespace stun { void stun_debug(const char*, ...) {} bool stun_message_has_cookie(const StunMessage*) { return true; } }
namespace {
uint32_t be16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
uint64_t pad4(uint64_t n) { return (n + 3) & ~(uint64_t)3; }
// a received message: the whole datagram
StunMessage* received(uint64_t lo, uint64_t hi)
{
    auto m = new StunMessage();
    const uint64_t n = vf_range(lo, hi, "n");
    m->buffer = (uint8_t*)vf_bytes(n, "datagram");
    m->buffer_len = n;
    return m;
}
StunAttribute anyAttr() { return (StunAttribute)vf_u16("attr"); }
// contract of stun_message_find, proved by stun_find
uint16_t g_len; uint64_t g_pos; bool g_found;
const void* find_contract(const StunMessage* m, StunAttribute, uint16_t* palen)
{
    const uint64_t len = be16(m->buffer + 2) + 20;
    vf_assert(m->buffer_len >= 20 && len <= m->buffer_len, "attributes are only searched in a message that fits its datagram");
    if (vf_any_bool()) return nullptr;
    const uint64_t pos = vf_any_u32(), alen = vf_any_u16();
    vf_assume(pos >= 24 && pos <= len && alen <= len - pos);
    *palen = (uint16_t)alen;
    g_found = true; g_pos = pos; g_len = (uint16_t)alen;
    return m->buffer + pos;
}
#define FIND vf_stub("stun::stun_message_find(stun::_StunMessage const*, stun::StunAttribute, unsigned short*)", (void*)&find_contract)
}
VF_HARNESS(stun_validate)
{
    const uint64_t n = vf_range(0, 65535, "n");
    auto d = (const uint8_t*)vf_bytes(n, "datagram");
    const int r = stun_message_validate_buffer_length(d, n, true);
    if (r > 0) {
        vf_assert(n >= 20 && (uint64_t)r <= n, "an accepted message fits the datagram");
        vf_assert((uint64_t)r == be16(d + 2) + 20u && (r & 3) == 0 && (d[0] & 0xC0) == 0, "its size is the declared one");
        vf_cover("accepted");
    } else vf_cover("rejected");
}
VF_HARNESS(stun_find)
{
    auto m = received(20, 65535);
    const uint64_t len = be16(m->buffer + 2) + 20;
    vf_assume(len <= m->buffer_len);
    const StunAttribute t = anyAttr();
    uint16_t alen = 0;
    auto p = (const uint8_t*)stun_message_find(m, t, &alen);
    if (!p) { vf_cover("none"); return; }
    vf_assert(vf_sameobj(p, m->buffer) && p >= m->buffer + 24 && p <= m->buffer + len, "the value is inside the message");
    const uint64_t pos = (uint64_t)(p - m->buffer);
    vf_assert(alen <= len - pos, "the value ends inside the message");
    vf_assert(be16(p - 4) == (uint32_t)t && be16(p - 2) == alen, "the value is that of an attribute of the type");
    vf_cover("found");
}
namespace {
void find_exact(uint64_t bytes)
{
    // against RFC 5389 section 15 written out: the first attribute of the type, none after a fingerprint, only the
    // fingerprint after the message integrity
    auto m = received(20, 20 + bytes);
    m->buffer_len = vf_case(m->buffer_len, 20, 20 + bytes);
    const uint64_t n = m->buffer_len;
    vf_assume(be16(m->buffer + 2) + 20u == n);
    const StunAttribute t = anyAttr();
    uint64_t o = 20, want = 0;
    bool done = false;
    while (!done && o + 4 <= n) {
        const uint32_t at = be16(m->buffer + o), al = be16(m->buffer + o + 2);
        if (o + 4 + al > n) break;
        if (at == (uint32_t)t) { want = o + 4; break; }
        if (at == STUN_ATTRIBUTE_FINGERPRINT || (at == STUN_ATTRIBUTE_MESSAGE_INTEGRITY && t != STUN_ATTRIBUTE_FINGERPRINT)) done = true;
        o += 4 + pad4(al);
    }
    uint16_t alen = 0;
    auto p = (const uint8_t*)stun_message_find(m, t, &alen);
    vf_assert((p != nullptr) == (want != 0), "found exactly when the attribute is there");
    if (p) { vf_assert(p == m->buffer + want && alen == be16(p - 2), "the first attribute of the type"); vf_cover("found"); }
    vf_bounded("attribute walk: messages with up to the stated number of attribute bytes");
}
}
VF_HARNESS(stun_find_exact12) { find_exact(12); }
VF_HARNESS(stun_find_exact20) { find_exact(20); }
VF_HARNESS(stun_values)
{
    FIND;
    auto m = received(20, 65535);
    vf_assume(be16(m->buffer + 2) + 20u <= m->buffer_len);
    const StunAttribute t = anyAttr();
    g_found = false;
    uint32_t v32 = 1; uint64_t v64 = 1; int code = 0;
    const auto r1 = stun_message_find32(m, t, &v32);
    if (vf_mode() == 1 && r1 == STUN_MESSAGE_RETURN_SUCCESS) { auto p = m->buffer + g_pos; vf_assert(g_len == 4 && v32 == ((uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]), "32-bit value"); vf_cover("32"); }
    const auto r2 = stun_message_find64(m, t, &v64);
    if (vf_mode() == 1 && r2 == STUN_MESSAGE_RETURN_SUCCESS) { vf_assert(g_len == 8, "64-bit value"); vf_cover("64"); }
    const auto r3 = stun_message_find_error(m, &code);
    if (r3 == STUN_MESSAGE_RETURN_SUCCESS) { vf_assert(code >= 300 && code <= 699, "error codes are 300 to 699"); vf_cover("error"); }
    (void)stun_message_find_flag(m, t);
    (void)stun_message_has_attribute(m, t);
}
VF_HARNESS(stun_string)
{
    FIND;
    auto m = received(20, 65535);
    vf_assume(be16(m->buffer + 2) + 20u <= m->buffer_len);
    const uint64_t cap = vf_range(0, 1000, "cap");
    auto s = (char*)vf_bytes(cap, "out");
    const auto r = stun_message_find_string(m, anyAttr(), s, cap);
    if (r == STUN_MESSAGE_RETURN_SUCCESS) { vf_cover("string"); if (vf_mode() == 1) vf_assert(g_len < cap && s[g_len] == 0, "terminated inside the output"); }
}
VF_HARNESS(stun_addr)
{
    FIND;
    auto m = received(20, 65535);
    vf_assume(be16(m->buffer + 2) + 20u <= m->buffer_len);
    sockaddr_storage ss;
    socklen_t len = sizeof ss;
    const StunAttribute t = anyAttr();
    const auto r = vf_fork(vf_bool("xor")) ? stun_message_find_xor_addr(m, t, &ss, &len) : stun_message_find_addr(m, t, &ss, &len);
    if (r == STUN_MESSAGE_RETURN_SUCCESS) { vf_assert(len == sizeof(sockaddr_in) || len == sizeof(sockaddr_in6), "address length"); vf_cover("address"); }
}
VF_HARNESS(stun_append)
{
    // the message built so far fits the buffer; appending keeps it so and leaves the earlier bytes alone
    StunMessage m{};
    const uint64_t n = vf_range(20, 65535, "n");
    m.buffer = (uint8_t*)vf_bytes(n, "buffer");
    m.buffer_len = n;
    const uint64_t old = be16(m.buffer + 2) + 20u;
    vf_assume(old <= n && (old & 3) == 0);
    const uint64_t k = vf_range(0, 65535, "k");
    const uint8_t before = k < n ? m.buffer[k] : 0;
    const uint64_t alen = vf_range(0, 70000, "length");
    const StunAttribute t = anyAttr();
    auto p = (uint8_t*)stun_message_append(&m, t, alen);
    const uint64_t now = be16(m.buffer + 2) + 20u;
    if (!p) {
        vf_assert(now == old, "nothing is appended when there is no room");
        vf_assert(old + 4 + pad4(alen) > n, "an attribute that fits is appended");
        if (k < n) vf_assert(m.buffer[k] == before, "nothing is written when there is no room");
        vf_cover("full");
        return;
    }
    vf_assert(now == old + 4 + pad4(alen) && now <= n, "the message grows by the padded attribute and stays inside the buffer");
    vf_assert(p == m.buffer + old + 4, "the value is behind the attribute header");
    vf_assert(be16(p - 4) == (uint32_t)t && be16(p - 2) == alen, "attribute header");
    if (k < n && (k < 2 || (k >= 4 && k < old) || k >= now || (k >= old + 4 && k < old + 4 + alen))) vf_assert(m.buffer[k] == before, "only the header, the padding and the message length are written");
    if (k < n && k >= old + 4 + alen && k < now) vf_assert(m.buffer[k] == 0, "padding is zero");
    vf_cover("appended");
}
namespace {
StunMessage g_m;
StunMessage* building()
{
    const uint64_t n = vf_range(20, 65535, "n");
    g_m.buffer = (uint8_t*)vf_bytes(n, "buffer");
    g_m.buffer_len = n;
    const uint64_t old = be16(g_m.buffer + 2) + 20u;
    vf_assume(old <= n && (old & 3) == 0);
    return &g_m;
}
}
VF_HARNESS(stun_append_values)
{
    auto m = building();
    const uint64_t old = be16(m->buffer + 2) + 20u;
    const StunAttribute t = anyAttr();
    const uint32_t v = vf_u32("v"); const uint64_t w = vf_u64("w");
    const bool sixtyfour = vf_fork(vf_bool("64"));
    const auto r = sixtyfour ? stun_message_append64(m, t, w) : stun_message_append32(m, t, v);
    if (r != STUN_MESSAGE_RETURN_SUCCESS) { vf_cover("full"); return; }
    const uint8_t* p = m->buffer + old + 4;
    vf_assert(be16(m->buffer + 2) + 20u == old + 4 + (sixtyfour ? 8 : 4), "message length");
    vf_assert(be16(p - 4) == (uint32_t)t && be16(p - 2) == (sixtyfour ? 8u : 4u), "attribute header");
    if (sixtyfour) { for (int i = 0; i < 8; i++) vf_assert(p[i] == (uint8_t)(w >> (56 - 8 * i)), "value in network order"); vf_cover("64"); }
    else { for (int i = 0; i < 4; i++) vf_assert(p[i] == (uint8_t)(v >> (24 - 8 * i)), "value in network order"); vf_cover("32"); }
}
VF_HARNESS(stun_append_addr)
{
    auto m = building();
    const uint64_t old = be16(m->buffer + 2) + 20u;
    sockaddr_storage ss;
    memset(&ss, 0, sizeof ss);
    const bool v6 = vf_fork(vf_bool("v6"));
    uint8_t raw[16];
    vf_havoc(raw, 16, "ip");
    const uint16_t port = vf_u16("port");
    if (v6) { auto a = (sockaddr_in6*)&ss; a->sin6_family = AF_INET6; a->sin6_port = port; memcpy(&a->sin6_addr, raw, 16); }
    else { auto a = (sockaddr_in*)&ss; a->sin_family = AF_INET; a->sin_port = port; memcpy(&a->sin_addr, raw, 4); }
    uint8_t id[16]; // cookie and transaction id: the first attribute comes behind the header
    memcpy(id, m->buffer + 4, 16);
    const auto r = stun_message_append_xor_addr(m, STUN_ATTRIBUTE_XOR_MAPPED_ADDRESS, &ss, v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in));
    if (r != STUN_MESSAGE_RETURN_SUCCESS) { vf_cover("full"); return; }
    const uint8_t* p = m->buffer + old + 4;
    vf_assert(be16(p - 2) == (v6 ? 20u : 8u) && p[0] == 0 && p[1] == (v6 ? 2 : 1), "address attribute");
    const uint32_t cookie = 0x2112A442;
    uint16_t rawport; memcpy(&rawport, p + 2, 2);
    vf_assert(rawport == (uint16_t)(port ^ 0x1221), "port is xored with the cookie");
    const unsigned i = (unsigned)vf_case(vf_range(0, v6 ? 15 : 3, "i"), 0, 15);
    vf_assert(p[4 + i] == (uint8_t)(raw[i] ^ (v6 ? id[i] : (uint8_t)(cookie >> (24 - 8 * i)))), "address is xored with the cookie and the transaction id");
    if (v6) vf_cover("v6"); else vf_cover("v4");
}
VF_HARNESS(stun_append_error)
{
    auto m = building();
    const uint64_t old = be16(m->buffer + 2) + 20u;
    const int code = (int)vf_range(300, 699, "code");
    const auto r = stun_message_append_error(m, (StunError)code);
    if (r != STUN_MESSAGE_RETURN_SUCCESS) { vf_cover("full"); return; }
    const uint8_t* p = m->buffer + old + 4;
    vf_assert(p[0] == 0 && p[1] == 0 && p[2] * 100 + p[3] == code && p[3] < 100, "error code");
    vf_assert(be16(m->buffer + 2) + 20u <= m->buffer_len, "inside the buffer");
    vf_cover("error");
}
VF_HARNESS(stun_init)
{
    StunMessage m{};
    const uint64_t n = vf_range(0, 100, "n");
    m.buffer = (uint8_t*)vf_bytes(n, "buffer");
    m.buffer_len = n;
    StunTransactionId id;
    vf_havoc(id, 16, "id");
    const StunClass c = (StunClass)(vf_u8("class") & 3);
    const StunMethod me = (StunMethod)(vf_u16("method") & 0xfff);
    const bool ok = stun_message_init(&m, c, me, id);
    vf_assert(ok == (n >= 20), "needs room for the header");
    if (!ok) { vf_cover("small"); return; }
    vf_assert(stun_message_length(&m) == 20 && (m.buffer[0] & 0xC0) == 0, "empty message");
    if (be16(m.buffer) != 0x0115) { vf_assert(stun_message_get_class(&m) == c, "class is read back"); vf_assert(stun_message_get_method(&m) == me, "method is read back"); }
    StunTransactionId got;
    stun_message_id(&m, got);
    const unsigned i = (unsigned)vf_range(0, 15, "i");
    vf_assert(got[i] == id[i], "transaction id is read back");
    vf_cover("init");
}
