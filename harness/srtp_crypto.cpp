// PROPERTY: C02 C03
// TUS: src/srtp_crypto.cpp src/srtp_util.cpp src/srtp_hmac_sha1.cpp src/byte_buffer.cpp
// ASSUME: OpenSSL's ciphers, GCM tag check and HMAC-SHA1 compute what their names say from the key, IV and bytes they are given; every call may fail
// OPT: srtp_media_in_gcm256 property=C02 cost=30
// OPT: srtp_media_in_gcm128 property=C02 cost=30
// OPT: srtp_media_in_cm80 property=C02 cost=30
// OPT: srtp_media_in_cm32 property=C02 cost=30
// OPT: srtp_media_out_gcm256 property=C03 cost=30
// OPT: srtp_media_out_gcm128 property=C03 cost=30
// OPT: srtp_media_out_cm80 property=C03 cost=30
// OPT: srtp_media_out_cm32 property=C03 cost=30
// OPT: srtp_control_in property=C02
// OPT: srtp_control_out property=C03
// SRTP and SRTCP: which bytes are encrypted, authenticated and compared under which key and IV (RFC 3711, RFC 7714).
#include "bytebuf_model.h"
#include "srtp_ghost.h"
#include "srtc/srtp_crypto.h"
#include "srtc/srtp_hmac_sha1.h"
namespace srtc { void initOpenSSL() {} }
using namespace srtc;
namespace {
int g_prof; bool gcm; int g_tag;
SrtpCrypto* make(int sel)
{
    static const int ids[4] = { SRTP_AEAD_AES_256_GCM, SRTP_AEAD_AES_128_GCM, SRTP_AES128_CM_SHA1_80, SRTP_AES128_CM_SHA1_32 };
    g_prof = ids[sel]; gcm = sel < 2; g_tag = gcm ? 16 : sel == 2 ? 10 : 4;
    ghostReset(false);
    SrtpCrypto::CryptoVectors v[4];
    for (int i = 0; i < 4; i++) {
        uint8_t b[32];
        vf_havoc(b, 32, "key"); v[i].key.assign(b, sel == 0 ? 32 : 16);
        vf_havoc(b, 32, "auth"); v[i].auth.assign(b, 20);
        vf_havoc(b, 32, "salt"); v[i].salt.assign(b, gcm ? 12 : 14);
    }
    auto c = new SrtpCrypto(g_prof, v[0], v[1], v[2], v[3]);
    g_mayfail = true;
    g_t = vf_range(0, 300000, "position");
    return c;
}
bool same(const uint8_t* a, const uint8_t* b, int n) { uint8_t d = 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
uint32_t be16(const uint8_t* p) { return p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
void put32(uint8_t* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
void put16(uint8_t* p, uint32_t v) { p[0] = v >> 8; p[1] = v; }
bool ivIs(const GhostCtx& x, const CryptoBytes& salt, uint32_t ssrc, uint32_t hi, uint16_t lo)
{
    // GCM: 00 00 SSRC(4) ROC(4) SEQ(2); counter mode: 0(4) SSRC(4) ROC(4) SEQ(2) 0(2); xored with the session salt
    uint8_t e[16] = {};
    const int o = gcm ? 2 : 4;
    put32(e + o, ssrc); put32(e + o + 4, hi); put16(e + o + 8, lo);
    for (int i = 0; i < (gcm ? 12 : 14); i++) e[i] ^= salt.v8[i];
    return same(x.iv, e, gcm ? 12 : 16);
}
// SRTCP: 00 00 SSRC 00 00 index / 0(4) SSRC(4) 0(2) index(4) 0(2)
bool ivIsControl(const GhostCtx& x, const CryptoBytes& salt, uint32_t ssrc, uint32_t index) { return ivIs(x, salt, ssrc, index >> 16, (uint16_t)index); }
bool cipherIs(const GhostCtx& x) { return x.cipher == (gcm ? (g_prof == SRTP_AEAD_AES_256_GCM ? 1 : 2) : 3); }
bool keyIs(const GhostCtx& x, const CryptoBytes& k) { return cipherIs(x) && same(x.key, k.v8, x.cipher == 1 ? 32 : 16); }
// RFC 3550: fixed header, contributing sources, extension
bool rtpHeader(const uint8_t* d, uint64_t n, uint64_t& h)
{
    h = 12 + 4 * (d[0] & 15);
    if (h > n) return false;
    if (d[0] & 0x10) { if (h + 4 > n) return false; h += 4 + 4 * be16(d + h + 2); }
    return h <= n;
}
}
static void media_in(int profile)
{
    auto c = make(profile);
    const uint64_t n = vf_range(12, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "packet");
    d[0] = (d[0] & 0xe0) | (uint8_t)vf_case(d[0] & 0x1f, 0, 31);
    ByteBuffer in(d, n), out;
    const uint32_t roc = vf_u32("roc");
    const bool ok = c->unprotectReceiveMedia(in, roc, out);
    uint64_t h = 0;
    const bool fits = n >= (uint64_t)g_tag && rtpHeader(d, n - g_tag, h);
    const GhostCtx& x = g_ctx[1];
    if (!ok) {
        vf_assert(out.size() == 0, "nothing is handed out");
        bool tagOk = gcm ? g_auth : g_macdone && same(g_digest, d + n - g_tag, g_tag);
        vf_assert(!fits || h + g_tag == n || g_failed || !tagOk, "an authentic packet is decrypted");
        vf_cover("refused");
        return;
    }
    vf_assert(fits && out.size() == n - g_tag, "long enough for header and tag");
    const uint8_t* p = out.data();
    if (g_t < h) { vf_assert(p[g_t] == d[g_t], "header passed through"); vf_cover("header"); }
    vf_assert(x.done && x.body == n - h - g_tag, "exactly the payload is decrypted");
    if (g_t < x.body) { vf_assert(x.bodyByte == d[h + g_t], "payload goes in"); vf_assert(x.outByte == p[h + g_t], "what comes out is the result"); vf_cover("payload"); }
    vf_assert(keyIs(x, c->mReceiveRtp.key), "receive RTP key");
    vf_assert(ivIs(x, c->mReceiveRtp.salt, be32(d + 8), roc, be16(d + 2)), "IV from salt, SSRC, rollover counter and sequence number");
    if (gcm) {
        vf_assert(g_auth && x.tagset && same(x.tag, d + n - 16, 16), "the tag of the packet was checked");
        vf_assert(x.aad == h, "header is authenticated");
        if (g_t < h) vf_assert(x.aadByte == d[g_t], "header bytes are authenticated");
    } else {
        vf_assert(g_macdone && same(g_digest, d + n - g_tag, g_tag), "the tag of the packet was checked");
        vf_assert(same(g_mackey, c->mReceiveRtp.auth.v8, 20), "receive RTP authentication key");
        vf_assert(g_mac == n - g_tag + 4, "packet and rollover counter are authenticated");
        if (g_t < n - g_tag) vf_assert(g_macByte == d[g_t], "packet bytes are authenticated");
        else if (g_t < g_mac) vf_assert(g_macByte == (uint8_t)(roc >> (8 * (3 - (g_t - (n - g_tag))))), "rollover counter is authenticated");
    }
}
static void media_out(int profile)
{
    auto c = make(profile);
    const uint64_t n = vf_range(12, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "packet");
    d[0] = (d[0] & 0xe0) | (uint8_t)vf_case(d[0] & 0x1f, 0, 31);
    ByteBuffer in(d, n), out;
    const uint32_t roc = vf_u32("roc");
    const bool ok = c->protectSendMedia(in, roc, out);
    uint64_t h = 0;
    const bool fits = rtpHeader(d, n, h);
    const GhostCtx& x = g_ctx[0];
    if (!ok) {
        vf_assert(out.size() == 0, "nothing is handed out");
        vf_assert(!fits || h == n || g_failed, "a well-formed packet with a payload is protected");
        vf_cover("refused");
        return;
    }
    vf_assert(fits && out.size() == n + g_tag, "grows by the tag");
    vf_assert(out.size() == n + c->getMediaProtectionOverhead(), "which is the overhead announced");
    const uint8_t* p = out.data();
    if (g_t < h) { vf_assert(p[g_t] == d[g_t], "header unchanged"); vf_cover("header"); }
    vf_assert(x.done && x.body == n - h, "exactly the payload is encrypted");
    if (g_t < x.body) { vf_assert(x.bodyByte == d[h + g_t], "payload goes in"); vf_assert(x.outByte == p[h + g_t], "ciphertext follows the header"); vf_cover("payload"); }
    vf_assert(keyIs(x, c->mSendRtp.key), "send RTP key");
    vf_assert(ivIs(x, c->mSendRtp.salt, be32(d + 8), roc, be16(d + 2)), "IV from salt, SSRC, rollover counter and sequence number");
    if (gcm) {
        vf_assert(x.tagset && same(x.tag, p + n, 16), "the tag ends the packet");
        vf_assert(x.aad == h, "header is authenticated");
        if (g_t < h) vf_assert(x.aadByte == d[g_t], "header bytes are authenticated");
    } else {
        vf_assert(g_macdone && same(g_digest, p + n, g_tag), "the tag ends the packet");
        vf_assert(same(g_mackey, c->mSendRtp.auth.v8, 20), "send RTP authentication key");
        vf_assert(g_mac == n + 4, "packet and rollover counter are authenticated");
        if (g_t < n) vf_assert(g_macByte == p[g_t], "header and ciphertext are authenticated");
        else if (g_t < g_mac) vf_assert(g_macByte == (uint8_t)(roc >> (8 * (3 - (g_t - n)))), "rollover counter is authenticated");
    }
}
VF_HARNESS(srtp_control_in)
{
    vfc_bytebuf();
    auto c = make((int)vf_case(vf_range(0, 3, "profile"), 0, 3));
    const uint64_t n = vf_range(12, 65535, "n");
    auto d = (const uint8_t*)vf_bytes(n, "packet");
    ByteBuffer in(d, n), out;
    const bool ok = c->unprotectReceiveControl(in, out);
    // plain: body, tag, E+index; counter mode: body, E+index, tag of 10 bytes in both profiles
    const uint64_t tag = gcm ? 16 : 10;
    const bool fits = n >= 8 + 4 + tag;
    const GhostCtx& x = g_ctx[1];
    if (!ok) {
        vf_assert(out.size() == 0, "nothing is handed out");
        if (fits) { const bool tagOk = gcm ? g_auth : g_macdone && same(g_digest, d + n - tag, 10); vf_assert(g_failed || !tagOk, "an authentic packet is decrypted"); }
        vf_cover("refused");
        return;
    }
    vf_assert(fits, "long enough");
    const uint64_t len = n - 4 - tag;
    const uint8_t* word = d + (gcm ? n - 4 : n - 14);
    const uint32_t w = be32(word);
    const bool enc = w >> 31;
    vf_assert(out.size() == len, "size");
    const uint8_t* p = out.data();
    if (g_t < 8) vf_assert(p[g_t] == d[g_t], "header passed through");
    if (enc) {
        vf_assert(x.done && x.body == len - 8, "exactly the body is decrypted");
        if (g_t < x.body) { vf_assert(x.bodyByte == d[8 + g_t], "body goes in"); vf_assert(x.outByte == p[8 + g_t], "what comes out is the result"); vf_cover("body"); }
        vf_assert(keyIs(x, c->mReceiveRtcp.key), "receive RTCP key");
        vf_assert(ivIsControl(x, c->mReceiveRtcp.salt, be32(d + 4), w & 0x7fffffff), "IV from salt, SSRC and index");
        vf_cover("encrypted");
    } else {
        if (g_t < len) vf_assert(p[g_t] == d[g_t], "a packet sent in clear is passed through");
        vf_assert(x.body == 0, "and not decrypted");
        vf_cover("clear");
    }
    if (gcm) {
        vf_assert(g_auth && same(x.tag, d + n - 20, 16), "the tag of the packet was checked");
        vf_assert(keyIs(x, c->mReceiveRtcp.key), "with the receive RTCP key");
        vf_assert(ivIsControl(x, c->mReceiveRtcp.salt, be32(d + 4), w & 0x7fffffff), "IV of the tag check");
        const uint64_t a = enc ? 8 : len;
        vf_assert(x.aad == a + 4, "header and index are authenticated");
        if (g_t < a) vf_assert(x.aadByte == d[g_t], "bytes outside the ciphertext are authenticated");
        else if (g_t < a + 4) vf_assert(x.aadByte == word[g_t - a], "index is authenticated");
    } else {
        vf_assert(g_macdone && same(g_digest, d + n - 10, 10), "the tag of the packet was checked");
        vf_assert(same(g_mackey, c->mReceiveRtcp.auth.v8, 20), "receive RTCP authentication key");
        vf_assert(g_mac == n - 10, "packet and index are authenticated");
        if (g_t < n - 10) vf_assert(g_macByte == d[g_t], "packet bytes are authenticated");
    }
}
VF_HARNESS(srtp_control_out)
{
    vfc_bytebuf();
    auto c = make((int)vf_case(vf_range(0, 3, "profile"), 0, 3));
    const uint64_t n = vf_range(8, 65535, "n");
    auto d = (const uint8_t*)vf_bytes(n, "packet");
    ByteBuffer in(d, n), out;
    const uint32_t seq = vf_u32("index");
    vf_assume(seq < 0x80000000u);
    const bool ok = c->protectSendControl(in, seq, out);
    const uint64_t tag = gcm ? 16 : 10;
    const GhostCtx& x = g_ctx[0];
    if (!ok) { vf_assert(out.size() == 0 && g_failed, "every packet is protected"); vf_cover("failed"); return; }
    vf_assert(out.size() == n + 4 + tag, "grows by index and tag");
    const uint8_t* p = out.data();
    if (g_t < 8) vf_assert(p[g_t] == d[g_t], "header unchanged");
    vf_assert(x.done && x.body == n - 8, "exactly the body is encrypted");
    if (g_t < x.body) { vf_assert(x.bodyByte == d[8 + g_t], "body goes in"); vf_assert(x.outByte == p[8 + g_t], "ciphertext follows the header"); vf_cover("body"); }
    vf_assert(keyIs(x, c->mSendRtcp.key), "send RTCP key");
    vf_assert(ivIsControl(x, c->mSendRtcp.salt, be32(d + 4), seq), "IV from salt, SSRC and index");
    uint8_t w[4];
    put32(w, seq | 0x80000000u);
    vf_assert(same(p + (gcm ? n + 16 : n), w, 4), "E flag and index");
    if (gcm) {
        vf_assert(x.tagset && same(x.tag, p + n, 16), "the tag follows the ciphertext");
        vf_assert(x.aad == 12, "header and index are authenticated");
        if (g_t < 8) vf_assert(x.aadByte == d[g_t], "header is authenticated");
        else if (g_t < 12) vf_assert(x.aadByte == w[g_t - 8], "index is authenticated");
    } else {
        vf_assert(g_macdone && same(g_digest, p + n + 4, 10), "the tag ends the packet");
        vf_assert(same(g_mackey, c->mSendRtcp.auth.v8, 20), "send RTCP authentication key");
        vf_assert(g_mac == n + 4, "packet and index are authenticated");
        if (g_t < n + 4) vf_assert(g_macByte == p[g_t], "header, ciphertext and index are authenticated");
    }
}
VF_HARNESS(srtp_media_in_gcm256) { vfc_bytebuf(); media_in(0); }
VF_HARNESS(srtp_media_in_gcm128) { vfc_bytebuf(); media_in(1); }
VF_HARNESS(srtp_media_in_cm80) { vfc_bytebuf(); media_in(2); }
VF_HARNESS(srtp_media_in_cm32) { vfc_bytebuf(); media_in(3); }
VF_HARNESS(srtp_media_out_gcm256) { vfc_bytebuf(); media_out(0); }
VF_HARNESS(srtp_media_out_gcm128) { vfc_bytebuf(); media_out(1); }
VF_HARNESS(srtp_media_out_cm80) { vfc_bytebuf(); media_out(2); }
VF_HARNESS(srtp_media_out_cm32) { vfc_bytebuf(); media_out(3); }
