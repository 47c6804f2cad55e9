// PROPERTY: C11 C28
// TUS: src/ice_agent.cpp src/stun/stunmessage.cpp src/stun/utils.cpp
// OPT: ice_forget property=C28
// OPT: ice_expire property=C28
// OPT: ice_request property=C28
// OPT: ice_response property=C28
// OPT: ice_verify_request property=C11
// OPT: ice_verify_response property=C11
// ASSUME: stun_sha1 (HMAC-SHA1 by OpenSSL) and stun_fingerprint are functions of the bytes they are given; secureEquals compares bytes
// The ICE agent: what counts as a verified message, and the table of requests that wait for a response.
#include "vf.h"
#include "stub_net.h"
#include "stub_random.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <cstring>
#include "stunmessage.h"
#include "stunhmac.h"
#include "stun5389.h"
#include "utils.h"
#include "srtc/ice_agent.h"
#include "srtc/srtp_crypto.h"
using namespace stun;
namespace {
uint32_t be16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
// ghost record of the cryptographic calls
struct Sha { int n; const uint8_t* msg; size_t len, mlen; const void* key; size_t keylen; const uint8_t* out; uint8_t digest[20]; } g_sha;
struct Crc { int n; const uint8_t* msg; size_t len; uint32_t v; } g_crc;
uint8_t g_tid[16];
}
namespace stun {
void stun_debug(const char*, ...) {}
bool stun_message_has_cookie(const StunMessage*) { return true; }
StunMessageReturn stun_message_append_software(StunMessage* msg, const char* s) { return stun_message_append_string(msg, STUN_ATTRIBUTE_SOFTWARE, s); }
void stun_make_transid(StunTransactionId id) { memcpy(id, g_tid, 16); }
void stun_sha1(const uint8_t* msg, size_t len, size_t mlen, uint8_t* sha, const void* key, size_t keylen, int padding)
{
    vf_assert(len >= 44 && !padding, "enough bytes for a message integrity attribute");
    if (vf_mode() == 1) vf_assert(vf_live(msg) && vf_objsize(msg) >= vf_offset(msg) + len, "the bytes the integrity is calculated over are inside the message");
    g_sha.n++; g_sha.msg = msg; g_sha.len = len; g_sha.mlen = mlen; g_sha.key = key; g_sha.keylen = keylen; g_sha.out = sha;
    for (int i = 0; i < 20; i++) sha[i] = g_sha.digest[i];
}
uint32_t stun_fingerprint(const uint8_t* msg, size_t len, bool)
{
    vf_assert(len >= 28, "enough bytes for a fingerprint attribute");
    if (vf_mode() == 1) vf_assert(vf_live(msg) && vf_objsize(msg) >= vf_offset(msg) + len, "the bytes the fingerprint is calculated over are inside the message");
    g_crc.n++; g_crc.msg = msg; g_crc.len = len;
    return g_crc.v;
}
}
namespace srtc {
bool SrtpCrypto::secureEquals(const void* a, const void* b, size_t n)
{
    auto p = (const uint8_t*)a; auto q = (const uint8_t*)b;
    uint8_t d = 0;
    for (size_t i = 0; i < n; i++) d |= p[i] ^ q[i];
    return d == 0;
}
}
using namespace srtc;
namespace {
// contract of stun_message_find, proved by stun_find: some attribute inside the message (which fits its datagram)
struct F { bool used, ok; uint64_t pos, len; } g_f[3]; // fingerprint, user name, integrity
const void* find_contract(const StunMessage* m, StunAttribute t, uint16_t* palen)
{
    const uint64_t len = be16(m->buffer + 2) + 20u;
    vf_assert(m->buffer_len >= 20 && len <= m->buffer_len, "attributes are only searched in a message that fits its datagram");
    const int i = t == STUN_ATTRIBUTE_FINGERPRINT ? 0 : t == STUN_ATTRIBUTE_USERNAME ? 1 : t == STUN_ATTRIBUTE_MESSAGE_INTEGRITY ? 2 : -1;
    vf_assert(i >= 0, "only these attributes matter");
    vf_assume(!g_f[i].used); // at most one search each (a second one would have the same result)
    g_f[i].used = true;
    if (vf_any_bool()) return nullptr;
    const uint64_t pos = vf_any_u32(), alen = vf_any_u16();
    vf_assume(pos >= 24 && pos <= len && alen <= len - pos);
    if (i == 1) vf_assume(alen <= 8);
    *palen = (uint16_t)alen;
    g_f[i].ok = true; g_f[i].pos = pos; g_f[i].len = alen;
    return m->buffer + pos;
}
void verify(bool request)
{
    IceAgent a;
    StunMessage m{};
    const uint64_t n = vf_range(20, 2000, "n");
    m.buffer = (uint8_t*)vf_bytes(n, "datagram");
    m.buffer_len = n;
    const uint64_t len = be16(m.buffer + 2) + 20u;
    vf_assume(len <= n);
    vf_havoc(g_sha.digest, 20, "digest");
    g_crc.v = vf_u32("crc");
    g_sha.n = 0; g_crc.n = 0;
    memset(g_f, 0, sizeof g_f);
    const std::string user = "ab:cd", pass = "secret";
    const bool ok = request ? a.verifyRequestMessage(&m, user, pass) : a.verifyResponseMessage(&m, pass);
    if (!ok) { vf_cover("rejected"); return; }
    if (vf_mode() == 1) {
        vf_assert(g_f[0].ok && g_f[0].len == 4, "a fingerprint is needed");
        vf_assert(g_f[2].ok && g_f[2].len == 20, "message integrity is needed");
        vf_assert(g_crc.n >= 1 && g_crc.msg == m.buffer && g_crc.len == len, "the fingerprint is calculated over the message");
        uint32_t got; memcpy(&got, m.buffer + g_f[0].pos, 4);
        vf_assert(got == g_crc.v, "the fingerprint matches");
        vf_assert(g_sha.n >= 1 && g_sha.msg == m.buffer && g_sha.len == g_f[2].pos + 20 && g_sha.mlen == g_f[2].pos, "the integrity is calculated over the message up to it");
        vf_assert(g_sha.key == pass.data() && g_sha.keylen == pass.size(), "the integrity is calculated with the password");
        const unsigned i = (unsigned)vf_range(0, 19, "i");
        vf_assert(m.buffer[g_f[2].pos + i] == g_sha.digest[i], "the integrity matches");
        if (request) {
            vf_assert(g_f[1].ok && g_f[1].len == user.size(), "the user name is needed");
            const unsigned j = (unsigned)vf_range(0, 4, "j");
            vf_assert(m.buffer[g_f[1].pos + j] == (uint8_t)user[j], "the user name matches");
        }
    }
    vf_cover("accepted");
}
}
VF_HARNESS(ice_verify_request) { vf_stub("stun::stun_message_find(stun::_StunMessage const*, stun::StunAttribute, unsigned short*)", (void*)&find_contract); verify(true); }
VF_HARNESS(ice_verify_response) { vf_stub("stun::stun_message_find(stun::_StunMessage const*, stun::StunAttribute, unsigned short*)", (void*)&find_contract); verify(false); }
namespace {
struct Saved { uint8_t id[16]; int64_t when; };
using TP = std::chrono::steady_clock::time_point;
TP at(int64_t ns) { return TP(std::chrono::nanoseconds(ns)); }
bool same(const uint8_t* a, const uint8_t* b) { for (int i = 0; i < 16; i++) if (a[i] != b[i]) return false; return true; }
bool sameId(const uint8_t* a, const uint8_t* b) { uint64_t x[2], y[2]; memcpy(x, a, 16); memcpy(y, b, 16); return x[0] == y[0] && x[1] == y[1]; }
unsigned fill(IceAgent& a, Saved* s, unsigned max)
{
    const unsigned n = (unsigned)vf_case(vf_range(0, max, "outstanding"), 0, max);
    for (unsigned i = 0; i < n; i++) {
        vf_havoc(s[i].id, 16, "id");
        s[i].when = (int64_t)vf_range(0, 1ull << 50, "when");
        vf_assume(s[i].when <= vf_now_ns);
        a.mTransactionList.emplace_back(at(s[i].when), s[i].id);
    }
    vf_bounded("the list walk: up to the stated number of outstanding requests");
    return n;
}
}
VF_HARNESS(ice_forget)
{
    vf_now_ns = (int64_t)vf_range(0, 1ull << 50, "now");
    IceAgent a;
    Saved s[3];
    const unsigned n = fill(a, s, 3);
    uint8_t id[16];
    vf_havoc(id, 16, "response");
    int hit = -1;
    for (unsigned i = 0; i < n; i++) if (hit < 0 && vf_fork(sameId(s[i].id, id))) hit = (int)i;
    float rtt = -1;
    const bool got = a.forgetTransaction(id, rtt);
    vf_assert(got == (hit >= 0), "a response counts exactly when its request is outstanding");
    vf_assert(a.mTransactionList.size() == n - (got ? 1 : 0), "an answered request is forgotten");
    unsigned i = 0;
    for (auto& t : a.mTransactionList) {
        if ((int)i == hit) i++;
        vf_assert(sameId(t.id, s[i].id) && t.when == at(s[i].when), "the others stay");
        i++;
    }
    if (got) {
        vf_assert(rtt == (float)((vf_now_ns - s[hit].when) / 1000) / 1000.0f, "round trip time");
        bool dup = false;
        for (unsigned j = 0; j < n; j++) if ((int)j != hit && sameId(s[j].id, id)) dup = true;
        if (!dup) vf_assert(!a.forgetTransaction(id, rtt), "at most once");
        vf_cover("answered");
    } else vf_cover("unknown");
}
VF_HARNESS(ice_expire)
{
    vf_now_ns = (int64_t)vf_range(0, 1ull << 50, "now");
    IceAgent a;
    Saved s[3];
    const unsigned n = fill(a, s, 3);
    const uint64_t which = vf_case(vf_range(0, 2, "expiration"), 0, 2);
    const int64_t ms = which == 0 ? 0 : which == 1 ? 1000 : 5000;
    a.forgetExpiredTransactions(std::chrono::milliseconds(ms));
    unsigned i = 0;
    auto it = a.mTransactionList.begin();
    for (; i < n; i++) {
        const bool old = s[i].when < vf_now_ns - ms * 1000000;
        if (old) { vf_cover("expired"); continue; }
        vf_assert(it != a.mTransactionList.end(), "requests within the time stay");
        vf_assert(sameId(it->id, s[i].id) && it->when == at(s[i].when), "in order");
        ++it;
        vf_cover("kept");
    }
    vf_assert(it == a.mTransactionList.end(), "requests past the time are forgotten");
}
namespace {
const uint8_t* attr(const StunMessage* m, uint32_t t) // first attribute, by hand
{
    const uint64_t len = be16(m->buffer + 2) + 20u;
    uint64_t o = 20;
    for (int i = 0; i < 8 && o + 4 <= len; i++) {
        if (be16(m->buffer + o) == t) return m->buffer + o + 4;
        o += 4 + ((be16(m->buffer + o + 2) + 3u) & ~3u);
    }
    return nullptr;
}
}
VF_HARNESS(ice_request)
{
    vf_now_ns = (int64_t)vf_range(0, 1ull << 50, "now");
    IceAgent a;
    vf_havoc(g_tid, 16, "transid");
    uint8_t tid[16];
    memcpy(tid, g_tid, 16);
    tid[0] = 0x21; tid[1] = 0x12; tid[2] = 0xA4; tid[3] = 0x42;
    vf_havoc(g_sha.digest, 20, "digest");
    g_crc.v = vf_u32("crc");
    g_sha.n = 0; g_crc.n = 0;
    const uint64_t n = vf_range(0, 200, "n");
    StunMessage m{};
    auto buf = (uint8_t*)vf_bytes(n, "buffer");
    const std::string user = "ab:cd", pass = "secret";
    if (!a.initRequest(&m, buf, n, STUN_BINDING)) { vf_assert(a.mTransactionList.empty(), "nothing to wait for"); return; }
    vf_assert(stun_message_get_class(&m) == STUN_REQUEST && stun_message_get_method(&m) == STUN_BINDING, "a binding request");
    const bool ok = a.finishMessage(&m, user, pass);
    vf_assert(be16(buf + 2) + 20u <= n, "inside the buffer");
    if (!ok) { vf_assert(a.mTransactionList.empty(), "an unfinished request is not waited for"); vf_cover("full"); return; }
    vf_assert(a.mTransactionList.size() == 1 && a.mTransactionList.front().when == at(vf_now_ns), "a finished request is waited for");
    vf_assert(sameId(a.mTransactionList.front().id, tid) && sameId(buf + 4, tid), "under its own transaction id");
    if (n >= 108) {
        const uint64_t len = be16(buf + 2) + 20u;
        const uint8_t* c = attr(&m, STUN_ATTRIBUTE_ICE_CONTROLLING);
        vf_assert(c && be16(c - 2) == 8, "the agent is controlling");
        uint64_t tie = 0;
        for (int i = 0; i < 8; i++) tie = tie << 8 | c[i];
        vf_assert(tie == a.mTie, "tie breaker of the agent");
        const uint8_t* u = attr(&m, STUN_ATTRIBUTE_USERNAME);
        vf_assert(u && be16(u - 2) == user.size() && !memcmp(u, user.data(), user.size()), "user name");
        const uint8_t* s = attr(&m, STUN_ATTRIBUTE_MESSAGE_INTEGRITY);
        vf_assert(s == buf + len - 28 && be16(s - 2) == 20, "integrity in front of the fingerprint");
        const unsigned i = (unsigned)vf_range(0, 19, "i");
        vf_assert(s[i] == g_sha.digest[i] && g_sha.msg == buf && g_sha.len == (uint64_t)(s - buf) + 20 && g_sha.mlen == (uint64_t)(s - buf), "integrity of the message up to it");
        vf_assert(g_sha.key == pass.data() && g_sha.keylen == pass.size(), "with the password");
        uint32_t f; memcpy(&f, buf + len - 4, 4);
        vf_assert(be16(buf + len - 8) == STUN_ATTRIBUTE_FINGERPRINT && f == g_crc.v && g_crc.len == len && g_crc.msg == buf, "fingerprint of the whole message at its end");
        vf_cover("complete");
    }
}
VF_HARNESS(ice_response)
{
    IceAgent a;
    StunMessage rq{}, m{};
    const uint64_t rn = vf_range(20, 200, "rn");
    rq.buffer = (uint8_t*)vf_bytes(rn, "request"); rq.buffer_len = rn;
    const uint64_t n = vf_range(0, 200, "n");
    auto buf = (uint8_t*)vf_bytes(n, "buffer");
    vf_havoc(g_sha.digest, 20, "digest");
    g_crc.v = vf_u32("crc");
    const bool isRequest = stun_message_get_class(&rq) == STUN_REQUEST;
    const bool ok = a.initResponse(&m, buf, n, &rq);
    vf_assert(ok == (isRequest && n >= 20), "only requests are answered");
    if (!ok) { vf_cover("no"); return; }
    vf_assert(stun_message_get_class(&m) == STUN_RESPONSE && stun_message_get_method(&m) == stun_message_get_method(&rq) && sameId(buf + 4, rq.buffer + 4), "the response has the method and id of the request");
    (void)a.finishMessage(&m, std::nullopt, "secret");
    vf_assert(be16(buf + 2) + 20u <= n, "inside the buffer");
    vf_assert(a.mTransactionList.empty(), "no response is waited for");
    vf_cover("response");
}
